// Witness unit: observable behaviour of QGrpcStatus values.
#include "qgrpcstatus.h"
#include <utility>
using namespace QtProtobuf;
namespace witness {
using C = QGrpcStatus::StatusCode;
C ctorCode(C c, const QString &m) { QGrpcStatus s(c, m); return s.code(); }
QString ctorMsg(C c, const QString &m) { QGrpcStatus s(c, m); return s.message(); }
C copyCode(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus s(a); return s.code(); }
QString copyMsg(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus s(a); return s.message(); }
C srcCode(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus s(a); return a.code(); }
C moveCode(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus s(std::move(a)); return s.code(); }
QString moveMsg(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus s(std::move(a)); return s.message(); }
C assignCode(C c, const QString &m, C d, const QString &n) { QGrpcStatus a(c, m); QGrpcStatus s(d, n); s = a; return s.code(); }
QString assignMsg(C c, const QString &m, C d, const QString &n) { QGrpcStatus a(c, m); QGrpcStatus s(d, n); s = a; return s.message(); }
QString assignSrcMsg(C c, const QString &m, C d, const QString &n) { QGrpcStatus a(c, m); QGrpcStatus s(d, n); s = a; return a.message(); }
C selfCode(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus &b = a; a = b; return a.code(); }
QString selfMsg(C c, const QString &m) { QGrpcStatus a(c, m); QGrpcStatus &b = a; a = b; return a.message(); }
C moveAssignCode(C c, const QString &m, C d, const QString &n) { QGrpcStatus a(c, m); QGrpcStatus s(d, n); s = std::move(a); return s.code(); }
QString moveAssignMsg(C c, const QString &m, C d, const QString &n) { QGrpcStatus a(c, m); QGrpcStatus s(d, n); s = std::move(a); return s.message(); }
C defaultCode() { QGrpcStatus s; return s.code(); }
bool eqCode(C c, const QString &m, C d) { QGrpcStatus s(c, m); return s == d; }
bool neCode(C c, const QString &m, C d) { QGrpcStatus s(c, m); return s != d; }
bool eqStatus(C c, const QString &m, C d, const QString &n) { QGrpcStatus s(c, m); QGrpcStatus t(d, n); return s == t; }
bool eqFree(C c, const QString &m, C d) { QGrpcStatus s(c, m); return d == s; }
bool neFree(C c, const QString &m, C d) { QGrpcStatus s(c, m); return d != s; }
}
