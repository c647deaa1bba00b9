From 48f58b54a22cf0272c1551674b2525295c592eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 01/27] fix: reject varints longer than 10 bytes instead of
 shifting out of range

---
 src/protobuf/qprotobufserializer_p.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..cae8793 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -26,6 +26,8 @@
 #include <QString>
 #include <QByteArray>
 
+#include <stdexcept>
+
 #include "qprotobufselfcheckiterator.h"
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -281,6 +283,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= 64) {
+                throw std::invalid_argument("Varint is longer than 10 bytes. Deserialization failed");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
-- 
2.43.0


From c98c08d50c1a129772121333ba65b26691cf6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 02/27] fix: never move the selfcheck iterator by a negative
 count

---
 src/protobuf/qprotobufselfcheckiterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..998c273 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -75,19 +75,19 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
 
     QProtobufSelfcheckIterator &operator -=(int count) {
-        m_sizeLeft += count;
-        if (m_sizeLeft > m_containerSize) {
+        if (count < 0 || count > m_containerSize - m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft += count;
         m_it -= count;
         return *this;
     }
-- 
2.43.0


From 848536f8053ab8da6b8e7d241c0854e09e1d23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 03/27] fix: check the remaining size before reading
 fixed-length and length-delimited values

---
 src/protobuf/qprotobufserializer_p.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index cae8793..6676dd5 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -308,8 +308,9 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        const char *data = it.data();
+        it += sizeof(V); //throws if less than sizeof(V) bytes are left
+        variantValue = QVariant::fromValue(*(V *)data);
     }
 
     template <typename V,
@@ -380,9 +381,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
-        it += length;
-        return result;
+        const char *data = it.data();
+        it += length; //throws if less than length bytes are left
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From 1471d74df73be9f1ab385091483d90c4ae663027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 04/27] fix: validate field keys inside map entries and skip
 unknown fields there

---
 src/protobuf/qprotobufserializer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..dfb316e 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -332,13 +332,16 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map entry doesn't contain valid header byte. "
+                                        "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
-        } else {
+        } else if (mapIndex == 2) {
             //TODO: replace with some common function
             int userType = value.userType();
             auto basicIt = handlers.find(userType);
@@ -348,6 +351,8 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
                 auto handler = QtProtobufPrivate::findHandler(userType);
                 handler.deserializer(q_ptr, it, value);//throws if not implemented
             }
+        } else {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         }
     }
 }
-- 
2.43.0


From 0fd6fe46753de0aebda24c5906cd6f9dad875ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:08 +0000
Subject: [PATCH 05/27] fix: keep earlier elements when a packed field is split
 into several blocks

---
 src/protobuf/qprotobufserializer_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 6676dd5..160d4d4 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -363,7 +363,7 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        QList<V> out = previousValue.value<QList<V>>(); //field may be split to several packed blocks
         unsigned int count = deserializeVarintCommon<uint32>(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
-- 
2.43.0


From 6ae741498301008505fc8e3207d55489abfa6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:37 +0000
Subject: [PATCH 06/27] fix: serialize initialization of the table of basic
 type handlers

Every QProtobufSerializer construction checks whether the shared handlers
table is empty and fills it; two threads constructing their first serializers
at the same time raced on it.
---
 src/protobuf/qprotobufserializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index dfb316e..336cdd4 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,8 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+#include <QMutex>
+
 namespace QtProtobuf {
 
 template<>
@@ -180,6 +182,9 @@ void QProtobufSerializer::deserializeEnumList(QList<int64> &value, const QMetaEn
 
 QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) : q_ptr(q)
 {
+    //handlers are common for all serializers, that may be created in different threads
+    static QMutex initializationLock;
+    QMutexLocker locker(&initializationLock);
     //if handlers is not empty intialization already done
     if (handlers.empty()) {
         wrapSerializer<float, serializeBasic, deserializeBasic<float>, Fixed32>();
-- 
2.43.0


From f06aeb772af470a2e3da4ed511a33d12df2c41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:37 +0000
Subject: [PATCH 07/27] fix: compare repeated messages and maps of messages
 without dereferencing null

A list with exactly one null pointer at some position, or maps of the same size
with different keys, made repeatedValueCompare dereference a null pointer.
---
 src/protobuf/qtprotobuftypes.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..a8dec40 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -283,7 +283,8 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (*itA != *itB
+                && (itA->isNull() || itB->isNull() || *(*itA) != *(*itB))) {
             return false;
         }
         ++itA;
@@ -305,8 +306,12 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
     }
 
     for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+        const auto itB = b.find((*itA).first);
+        if (itB == b.end()) {
+            return false;
+        }
+        if (itB.value() != (*itA).second
+                && (itB.value().isNull() || (*itA).second.isNull() || *(itB.value()) != *((*itA).second))) {
             return false;
         }
     }
-- 
2.43.0


From d35abf26995aba193cf04ebee13a6d4c2b3a779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:37 +0000
Subject: [PATCH 08/27] fix: throw when a serializer of an unknown plugin is
 requested

getSerializer() created an empty entry for the unknown plugin and dereferenced
the null pointer stored there.
---
 src/protobuf/qprotobufserializerregistry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..d02e037 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -186,12 +186,12 @@ QString QProtobufSerializerRegistry::loadPlugin(const QString &name)
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id)
 {
-    return dPtr->m_plugins[DefaultImpl]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(DefaultImpl)->serializers.at(id); //throws
 }
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 7447cc36784654c1667030c54b33a84fdbcf7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:24 +0000
Subject: [PATCH 09/27] fix: keep ownership of lazy message pointers consistent

- operator-> and the move assignment returned nothing
- moving left the destroyed-connection at the source, so that the moved object
  dangled when it was deleted elsewhere; lazily created objects and objects
  passed to the constructor had no connection at all
---
 src/protobuf/qprotobuflazymessagepointer.h | 34 +++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..16c2834 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -37,7 +37,11 @@
 template <typename T>
 class QProtobufLazyMessagePointer {//TODO: final?
 public:
-    QProtobufLazyMessagePointer(T *p = nullptr) : m_ptr(p) {}
+    QProtobufLazyMessagePointer(T *p = nullptr) {
+        if (p != nullptr) {
+            reset(p);
+        }
+    }
 
     virtual ~QProtobufLazyMessagePointer() {
         checkAndRelease();
@@ -46,21 +50,21 @@ public:
 
     typename std::add_lvalue_reference<T>::type operator *() const {
         if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
+            reset(new T);
         }
         return *m_ptr;
     }
 
     T *operator->() const noexcept {
         if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
+            reset(new T);
         }
-        m_ptr.operator->();
+        return m_ptr.operator->();
     }
 
     T *get() const {
         if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
+            reset(new T);
         }
         return m_ptr.get();
     }
@@ -79,17 +83,25 @@ public:
     void reset(T *p) const {
         checkAndRelease();
         QObject::disconnect(m_destroyed);
-        m_destroyed = QObject::connect(p, &QObject::destroyed, [this] {
-            QObject::disconnect(m_destroyed);
-            m_ptr.release();
-        });
+        if (p != nullptr) {
+            m_destroyed = QObject::connect(p, &QObject::destroyed, [this] {
+                QObject::disconnect(m_destroyed);
+                m_ptr.release();
+            });
+        }
 
         m_ptr.reset(p);
     }
 
-    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
+    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) {
+        *this = std::move(other);
+    }
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
-        m_ptr = std::move(other.m_ptr);
+        if (this != &other) {
+            QObject::disconnect(other.m_destroyed);
+            reset(other.m_ptr.release());
+        }
+        return *this;
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From e70b4e6ffc9e7ea3a710cb8e89e5d61934cdb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:24 +0000
Subject: [PATCH 10/27] fix: do not hold the data lock of an operation while
 its client emits error

QGrpcAsyncOperationBase::read() decoded the response with m_asyncLock held. A
failing decode emits QAbstractGrpcClient::error(), so any slot that calls read()
or setData() on the same operation deadlocked on the non-recursive mutex.
---
 src/grpc/qgrpcasyncoperationbase_p.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcasyncoperationbase_p.h b/src/grpc/qgrpcasyncoperationbase_p.h
index edb5862..ac0a658 100644
--- a/src/grpc/qgrpcasyncoperationbase_p.h
+++ b/src/grpc/qgrpcasyncoperationbase_p.h
@@ -53,11 +53,13 @@ public:
      */
     template <typename T>
     T read() {
-        QMutexLocker locker(&m_asyncLock);
         T value;
+        QMutexLocker locker(&m_asyncLock);
+        const QByteArray data = m_data;
+        locker.unlock();
         auto client = static_cast<QAbstractGrpcClient*>(parent());
         if (client) {
-            client->tryDeserialize(value, m_data);
+            client->tryDeserialize(value, data);
         }
         return value;
     }
-- 
2.43.0


From a0dbdd82f120ed1e686e829bf35d2a2557b00ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:45 +0000
Subject: [PATCH 11/27] fix: do not walk the list of active streams while
 aborting them

Aborting a stream emits finished(), whose handler erases the stream from
activeStreams. attachChannel() did that inside a range-for over the same vector,
which invalidates its iterators (use after free, skipped streams).
---
 src/grpc/qabstractgrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..6ca918a 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,12 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    // Aborted streams remove themselves from dPtr->activeStreams, so walk over copies of it
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
 }
-- 
2.43.0


From f978a15fcc8063f2d9f40ab2fee156b6ebfaea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:45 +0000
Subject: [PATCH 12/27] fix: do not restart a stream that was finished after
 its error

The restart timer only checked that the stream object still exists. A user that
keeps the stream handle and aborts the stream within the restart delay got it
restarted, although it was finished and no longer listed as active.
---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 6ca918a..c1c7f2c 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -160,7 +160,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                const bool active = stream && std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams);
+                if (active) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From 4e38d6ce5c022fb283810cb7e729af962bb85786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:45 +0000
Subject: [PATCH 13/27] fix: report the end of a native channel stream

A stream the server closed with OK emitted neither finished() nor error() on
QGrpcChannel, so the client kept it in the list of active streams forever and
later requests for the same method and argument got the dead stream.
---
 src/grpc/qgrpcchannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..1d9a89a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -288,6 +288,8 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         if (sub->status.code() != QGrpcStatus::Ok)
         {
             stream->error(sub->status);
+        } else {
+            stream->finished();
         }
     });
 
-- 
2.43.0


From d328594a1575dd577c310c4fc8416e4e7978c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:46 +0000
Subject: [PATCH 14/27] fix: keep the native channel alive while a call worker
 uses it

The worker thread of QGrpcChannelCall used a raw grpc::Channel pointer. When the
QGrpcChannel was destroyed or replaced before the worker created its call, the
pointer dangled. The worker now shares ownership of the channel.
---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 src/grpc/qgrpcchannel_p.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 1d9a89a..7ddcd5e 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -142,7 +142,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +151,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +213,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +245,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..bf62e1c 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -73,7 +73,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From 1e4940f9a659c67b8dccec5f44f99f22ae828fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 15/27] fix: reassemble stream messages independently of
 transport chunking

The HTTP/2 stream reader parsed the 5-byte size header before all of it had
arrived (read beyond the received data), dropped a remainder of 1 to 4 bytes,
did not look at a remainder of exactly 5 bytes, looped forever on lengths of
2 GB and more, and kept undelivered bytes of aborted streams, which a new reply
at the same address would have inherited.
---
 src/grpc/qgrpchttp2channel.cpp | 61 ++++++++++++----------------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..1e88e78 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -99,17 +99,11 @@ const int GrpcMessageSizeHeaderSize = 5;
 namespace QtProtobuf {
 //! \private
 struct QGrpcHttp2ChannelPrivate {
-    //! \private
-    struct ExpectedData {
-        int expectedSize;
-        QByteArray container;
-    };
-
     QUrl url;
     QNetworkAccessManager nm;
     std::unique_ptr<QAbstractGrpcCredentials> credentials;
     QSslConfiguration sslConfig;
-    std::unordered_map<QNetworkReply *, ExpectedData> activeStreamReplies;
+    std::unordered_map<QNetworkReply *, QByteArray> activeStreamReplies; // Data received, but not delivered yet
     QObject lambdaContext;
 
     QNetworkReply *post(const QString &method, const QString &service, const QByteArray &args, bool stream = false) {
@@ -192,8 +186,8 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        return static_cast<qint64>(qFromBigEndian<quint32>(container.constData() + 1)) + GrpcMessageSizeHeaderSize;
     }
 };
 
@@ -278,42 +272,28 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
     *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
         QByteArray data = networkReply->readAll();
         qProtoDebug() << "RECV" << data.size();
 
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
+        dPtr->activeStreamReplies[networkReply].append(data);
 
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
+        // Handlers may abort the stream, so state has to be looked up for each message
+        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
+        while (replyIt != dPtr->activeStreamReplies.end() && !networkReply->isFinished()) {
+            QByteArray &container = replyIt->second;
+            qProtoDebug() << "Proceed chunk: " << data.size() << " container: " << container.size();
+            if (container.size() < GrpcMessageSizeHeaderSize) {
+                break;
             }
-
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
-        }
-
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
+            const qint64 expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(container);
+            if (container.size() < expectedDataSize) {
+                break;
             }
-        }
-
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
+            qProtoDebug() << "Full data received, expectedDataSize: " << expectedDataSize;
+            const QByteArray message = container.mid(GrpcMessageSizeHeaderSize, expectedDataSize - GrpcMessageSizeHeaderSize);
+            container.remove(0, expectedDataSize);
+            grpcStream->handler(message);
+            replyIt = dPtr->activeStreamReplies.find(networkReply);
         }
     });
 
@@ -370,7 +350,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         }
     });
 
-    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection] {
+    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this] {
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
@@ -380,6 +360,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*abortConnection) {
             QObject::disconnect(*abortConnection);
         }
+        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
-- 
2.43.0


From 65bd78b707da4c3a71d4319cd194547c4836483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:36 +0000
Subject: [PATCH 16/27] fix: let stream handlers add further handlers

QGrpcStream::handler walked m_handlers while running them; a handler that
requests the same stream again appends to that vector and invalidates the
iterators.
---
 src/grpc/qgrpcstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..26773e1 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,8 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        const auto handlers = m_handlers; // Handlers are allowed to add more handlers
+        for (const auto &handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From 98af1366cb43af219a116bc686b1323aeecf9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:38 +0000
Subject: [PATCH 17/27] fix: drop data queued before a native stream was
 stopped

---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 7ddcd5e..d4b47bd 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        // Data that was queued by the stream thread is delivered even after disconnect
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From 1ff595861e73c109a2122edbd0825a3ba5ed8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:13 +0000
Subject: [PATCH 18/27] fix: restart QML streams when their set-up changes

Aborting the former stream emits finished, whose handler disabled the
QML stream before it could be started with the changed property.
---
 src/grpc/quick/qquickgrpcstream.cpp | 18 ++++++++++++------
 src/grpc/quick/qquickgrpcstream_p.h |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..8a690d5 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -40,19 +40,25 @@ QQuickGrpcStream::QQuickGrpcStream(QObject *parent) : QObject(parent)
 
 QQuickGrpcStream::~QQuickGrpcStream()
 {
-    if (m_stream) {
-        m_stream->abort();
-    }
+    abortStream();
     delete m_returnValue;
 }
 
-
-void QQuickGrpcStream::updateStream()
+void QQuickGrpcStream::abortStream()
 {
     if (m_stream) {
-        m_stream->abort();
+        // The stream is not wanted any more, so its end should neither disable nor update this object
+        auto stream = m_stream;
         m_stream.reset();
+        disconnect(stream.get(), nullptr, this, nullptr);
+        stream->abort();
     }
+}
+
+
+void QQuickGrpcStream::updateStream()
+{
+    abortStream();
 
     if (m_returnValue != nullptr) {
         m_returnValue->deleteLater(); //TODO: probably need to take care about return value cleanup other way. It's just reminder about weak memory management.
diff --git a/src/grpc/quick/qquickgrpcstream_p.h b/src/grpc/quick/qquickgrpcstream_p.h
index 65673ba..e8be523 100644
--- a/src/grpc/quick/qquickgrpcstream_p.h
+++ b/src/grpc/quick/qquickgrpcstream_p.h
@@ -177,6 +177,7 @@ signals:
     void returnValueChanged();
 
 private:
+    void abortStream();
     void updateStream();
     bool stream();
     QPointer<QAbstractGrpcClient> m_client;
-- 
2.43.0


From d5870a51a404d3f08dde2777045796197bb420a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:29 +0000
Subject: [PATCH 19/27] fix: reject QML streams whose return argument is not an
 object

---
 src/grpc/quick/qquickgrpcstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index 8a690d5..231c61c 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -129,7 +129,7 @@ bool QQuickGrpcStream::stream()
     argument->deleteLater(); //TODO: probably need to take care about temporary argument value cleanup other way. It's just reminder about weak memory management.
 
     QMetaType returnPointerType(method.parameterType(1));
-    if (!returnPointerType.isValid()) {
+    if (!returnPointerType.isValid() || returnPointerType.metaObject() == nullptr) {
         errorString = QString("Return type argument of type '") + method.parameterTypes().at(1) + "' is not registred in metatype system";
         qProtoWarning() << errorString;
         error({QGrpcStatus::InvalidArgument, errorString});
-- 
2.43.0


From 8226faa2768ebbd8fe180099355e33d7610d9a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 20/27] fix: declare and register every enum of a message once

---
 src/generator/messagedeclarationprinter.cpp | 11 ++++++-----
 src/generator/messagedefinitionprinter.cpp  |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..24a1711 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -190,12 +190,13 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        auto typeMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeTemplate);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeListTemplate);
+    }
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
 
diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..0e82af0 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,12 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From ce30525b452a59f527c250079cc1b278e81ad7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 21/27] fix: notify when move assignment changes an enum field

---
 src/generator/templates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..103df47 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -149,7 +149,7 @@ const char *Templates::MoveComplexFieldConstructorTemplate = "m_$property_name$
 
 const char *Templates::MoveFieldTemplate = "set$property_name_cap$(std::exchange(other.m_$property_name$, 0));\n"
                                            "other.$property_name$Changed();\n";
-const char *Templates::EnumMoveFieldTemplate = "m_$property_name$ = other.m_$property_name$;\n";
+const char *Templates::EnumMoveFieldTemplate = "set$property_name_cap$(other.m_$property_name$);\n";
 
 const char *Templates::AssignmentOperatorDeclarationTemplate = "$classname$ &operator =(const $classname$ &other);\n";
 const char *Templates::AssignmentOperatorDefinitionTemplate = "$classname$ &$classname$::operator =(const $classname$ &other)\n{\n";
-- 
2.43.0


From 44ab8f78e6461db1ad237d7a62c114fd0b4deb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 22/27] fix: default of enum fields whose first value starts
 lower case

---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 0e82af0..3ded4ac 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -173,7 +173,7 @@ void MessageDefinitionPrinter::printInitializationList(int fieldCount)
                 propertyMap["initializer"] = "false";
                 break;
             case FieldDescriptor::TYPE_ENUM:
-                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + field->enum_type()->value(0)->name();
+                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + utils::upperCaseName(field->enum_type()->value(0)->name());
                 break;
             default:
                 break;
-- 
2.43.0


From 3f4b1a7422481a403004449391bcae899a5a8f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 23/27] fix: MULTI generation of messages with repeated fields
 of their own type

---
 src/generator/multifilegenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 10d5952..ae14442 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -134,6 +134,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
             }
         }
 
+        messageDecl.printClassForwardDeclaration();
         messageDecl.printClassDeclaration();
 
         printDisclaimer(sourcePrinter);
-- 
2.43.0


From a7ae90fe5db8b1a60e883b8c4b41fb695c6a4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 24/27] fix: client methods with nested or lower case message
 types

---
 src/generator/generatorcommon.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index d0f953a..cf96c70 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -408,13 +408,11 @@ bool common::hasQmlAlias(const ::google::protobuf::FieldDescriptor *field)
 
 MethodMap common::produceMethodMap(const MethodDescriptor *method, const std::string& scope)
 {
-    std::string inputTypeName = method->input_type()->full_name();
-    std::string outputTypeName = method->output_type()->full_name();
+    std::string inputTypeName = produceMessageTypeMap(method->input_type(), nullptr)["scope_type"];
+    std::string outputTypeName = produceMessageTypeMap(method->output_type(), nullptr)["scope_type"];
     std::string methodName = method->name();
     std::string methodNameUpper = method->name();
     methodNameUpper[0] =  static_cast<char>(::toupper(methodNameUpper[0]));
-    utils::replace(inputTypeName, ".", "::");
-    utils::replace(outputTypeName, ".", "::");
     return {{"classname", scope},
                   {"return_type", outputTypeName},
                   {"method_name", methodName},
-- 
2.43.0


From 409ee54e90d17745af5d293e5681bdadd95cd779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 25/27] fix: includes of clients generated with MULTI

---
 src/generator/multifilegenerator.cpp           |  2 +-
 .../servicedeclarationprinterbase.cpp          | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index ae14442..af1f981 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -170,7 +170,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         printDisclaimer(sourcePrinter);
         std::string includeFileName = service->name();
         utils::tolower(includeFileName);
-        sourcePrinter->Print({{"include", includeFileName}}, Templates::InternalIncludeTemplate);
+        sourcePrinter->Print({{"include", includeFileName + "client"}}, Templates::InternalIncludeTemplate);
         if (GeneratorOptions::instance().hasQml()) {
             sourcePrinter->Print({{"include", "QQmlEngine"}}, Templates::ExternalIncludeTemplate);
             sourcePrinter->Print({{"include", "QJSEngine"}}, Templates::ExternalIncludeTemplate);
diff --git a/src/generator/servicedeclarationprinterbase.cpp b/src/generator/servicedeclarationprinterbase.cpp
index 3e2fe10..548d69d 100644
--- a/src/generator/servicedeclarationprinterbase.cpp
+++ b/src/generator/servicedeclarationprinterbase.cpp
@@ -52,12 +52,18 @@ void ServiceDeclarationPrinterBase::printIncludes()
 
     for (int i = 0; i < mDescriptor->method_count(); i++) {
         const MethodDescriptor *method = mDescriptor->method(i);
-        std::string inputTypeName = method->input_type()->name();
-        std::string outputTypeName = method->output_type()->name();
-        utils::tolower(inputTypeName);
-        utils::tolower(outputTypeName);
-        includeSet.insert(inputTypeName);
-        includeSet.insert(outputTypeName);
+        for (auto type : {method->input_type(), method->output_type()}) {
+            const Descriptor *message = common::findHighestMessage(type);
+            std::string include;
+            if (message->file()->package() != mDescriptor->file()->package()) {
+                for (auto package : utils::split(message->file()->package(), '.')) {
+                    include += package + "/";
+                }
+            }
+            std::string typeName = message->name();
+            utils::tolower(typeName);
+            includeSet.insert(include + typeName);
+        }
     }
 
     for (auto type : includeSet) {
-- 
2.43.0


From cbacadd35a08b05935b7c716dcbcf4feff31d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 26/27] fix: QML calls that could not be started

---
 src/generator/templates.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 103df47..e2cc50c 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -335,6 +335,10 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (!reply) {\n"
+                                                           "        qProtoWarning() << \"Unable to call $classname$::$method_name$, call is not started\";\n"
+                                                           "        return;\n"
+                                                           "    }\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -360,6 +364,10 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (!reply) {\n"
+                                                            "        qProtoWarning() << \"Unable to call $classname$::$method_name$, call is not started\";\n"
+                                                            "        return;\n"
+                                                            "    }\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From 944d4f434747ef4205b1792e5018d0f23547e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:26 +0000
Subject: [PATCH 27/27] fix: EXTRA_NAMESPACE followed by another generator
 option

---
 src/generator/generatoroptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/generatoroptions.cpp b/src/generator/generatoroptions.cpp
index ef7a4b7..7bebf6c 100644
--- a/src/generator/generatoroptions.cpp
+++ b/src/generator/generatoroptions.cpp
@@ -68,7 +68,7 @@ void GeneratorOptions::parseFromEnv(const std::string &options)
             mGenerateFieldEnum = true;
         } else if (option.find(ExtraNamespaceGenerationOption) == 0) {
             QT_PROTOBUF_DEBUG("set mGenerateFieldEnum: true");
-            std::vector<std::string> compositeOption = utils::split(options, '=');
+            std::vector<std::string> compositeOption = utils::split(option, '=');
             if (compositeOption.size() == 2) {
                 mExtraNamespace = compositeOption[1];
                 if (mExtraNamespace.size() > 1 && mExtraNamespace[0] == '\"'
-- 
2.43.0

