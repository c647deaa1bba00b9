// Witness unit: makes the compiler instantiate the header templates the analysis looks at,
// for one message type, one enum and the map/list shapes generated code uses.
#include "qprotobufserializer.h"
#include "qprotobufserializer_p.h"
#include "qprotobufobject.h"
#include "qprotobuflazymessagepointer.h"
#include <QMap>
#include <QSharedPointer>

namespace witness {
class Msg : public QObject {
    Q_OBJECT
    Q_PROTOBUF_OBJECT
    Q_DECLARE_PROTOBUF_SERIALIZERS(Msg)
public:
    enum E { A = 0, B = 1 };
    Q_ENUM(E)
    Msg(QObject *parent = nullptr);
    Msg(const Msg &other);
    Msg &operator =(const Msg &other);
    bool operator ==(const Msg &other) const;
    bool operator !=(const Msg &other) const;
    static void registerTypes();
};
using MsgList = QList<QSharedPointer<Msg>>;
using EnumList = QList<Msg::E>;
using ScalarMap = QMap<QString, QtProtobuf::sint32>;
using ObjectMap = QMap<QtProtobuf::sint32, QSharedPointer<Msg>>;

void registration() {
    qRegisterProtobufType<Msg>();
    qRegisterProtobufMapType<QString, QtProtobuf::sint32>();
    qRegisterProtobufMapType<QtProtobuf::sint32, Msg>();
    qRegisterProtobufEnumType<Msg::E>();
}
void codec(QtProtobuf::QAbstractProtobufSerializer *s, Msg *m, const QByteArray &d) {
    s->deserialize(m, d);
    s->serialize<Msg>(m);
    m->deserialize(s, d);
    m->serialize(s);
}
bool compareList(const MsgList &a, const MsgList &b) { return QtProtobuf::repeatedValueCompare(a, b); }
bool compareMap(const ObjectMap &a, const ObjectMap &b) { return QtProtobuf::repeatedValueCompare(a, b); }
}
Q_DECLARE_METATYPE(witness::Msg*)
Q_DECLARE_METATYPE(witness::MsgList)
Q_DECLARE_METATYPE(witness::EnumList)
Q_DECLARE_METATYPE(witness::Msg::E)
template class QProtobufLazyMessagePointer<witness::Msg>;
namespace witness {
bool compareScalarMap(const ScalarMap &a, const ScalarMap &b) { return QtProtobuf::repeatedValueCompare(a, b); }
}
