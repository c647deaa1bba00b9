// Witness unit: instantiates the client templates of QtGrpc for one message type.
#include "qabstractgrpcclient.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qprotobufobject.h"

namespace witness {
class Msg : public QObject {
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(Msg)
public:
    Msg(QObject *parent = nullptr);
    Msg(const Msg &other);
    Msg &operator =(const Msg &other);
    static void registerTypes();
};
class Client : public QtProtobuf::QAbstractGrpcClient {
public:
    Client();
    QtProtobuf::QGrpcStatus syncCall(const QString &m, const Msg &a, const QPointer<Msg> &r) { return call(m, a, r); }
    QtProtobuf::QGrpcCallReplyShared asyncCall(const QString &m, const Msg &a) { return call(m, a); }
    QtProtobuf::QGrpcStreamShared plainStream(const QString &m, const Msg &a) { return stream(m, a); }
    QtProtobuf::QGrpcStreamShared boundStream(const QString &m, const Msg &a, const QPointer<Msg> &r) { return stream(m, a, r); }
};
Msg readReply(QtProtobuf::QGrpcCallReply *r) { return r->read<Msg>(); }
Msg readStream(QtProtobuf::QGrpcStream *r) { return r->read<Msg>(); }
}
