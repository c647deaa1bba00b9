// Witness unit: instantiates the credential templates of QtGrpc.
#include "qgrpccredentials.h"
#include "qgrpcsslcredentials.h"
#include "qgrpcinsecurecredentials.h"
#include "qgrpcuserpasswordcredentials.h"
#include <memory>

namespace witness {
using namespace QtProtobuf;
struct CallPart : public QGrpcCallCredentials { QGrpcCredentialMap operator()(); QString tag; };
struct ChannelPart : public QGrpcChannelCredentials { QGrpcCredentialMap channelCredentials() const; QString tag; };
using Both = QGrpcCredentials<CallPart, ChannelPart>;
std::unique_ptr<QAbstractGrpcCredentials> callThenChannel(const CallPart &call, const ChannelPart &channel) { return call | channel; }
std::unique_ptr<QAbstractGrpcCredentials> channelThenCall(const CallPart &call, const ChannelPart &channel) { return channel | call; }
QGrpcCredentialMap bothCall(const CallPart &call, const ChannelPart &channel) { Both b(call, channel); return b.callCredentials(); }
QGrpcCredentialMap bothChannel(const CallPart &call, const ChannelPart &channel) { Both b(call, channel); return b.channelCredentials(); }
QGrpcCredentialMap onlyCall(const CallPart &call) { Both b(call); return b.callCredentials(); }
QGrpcCredentialMap onlyChannel(const ChannelPart &channel) { Both b(channel); return b.channelCredentials(); }
QGrpcCredentialMap userPassword(const QString &user, const QString &password) { QGrpcUserPasswordCredentials<> c(user, password); return c(); }
QGrpcCredentialMap ssl(const QSslConfiguration &configuration) { QGrpcSslCredentials c(configuration); return c.channelCredentials(); }
}
