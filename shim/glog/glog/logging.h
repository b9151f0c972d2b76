#pragma once
// Analysis-only stand-in for glog: logging is branch free (so log statements
// add no paths) and a failed CHECK / LOG(FATAL) is a call that never returns.
#include <gflags/gflags.h>
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#include <cassert>
#include <cerrno>
#include <unistd.h>
#include <ctime>
DECLARE_bool(logtostderr);
DECLARE_int32(minloglevel);
DECLARE_int32(v);
namespace google {
enum { GLOG_INFO, GLOG_WARNING, GLOG_ERROR, GLOG_FATAL };
std::ostream& ShimLog();
std::ostream& ShimLogIf(bool cond);
[[noreturn]] std::ostream& ShimFatal();
[[noreturn]] std::ostream& ShimFatalIf(bool);
[[noreturn]] std::ostream& ShimCheckFail();
struct Voidify { void operator&(std::ostream&) {} };
void InitGoogleLogging(const char*);
template <class T> T* CheckNotNull(T* t) { if (!t) ShimCheckFail(); return t; }
template <class T> T& CheckNotNull(T& t) { if (!t) ShimCheckFail(); return t; }
struct LogMessage { LogMessage(const char*, int); std::ostream& stream(); };
}
#define GSHIM_INFO ::google::ShimLog()
#define GSHIM_WARNING ::google::ShimLog()
#define GSHIM_ERROR ::google::ShimLog()
#define GSHIM_FATAL ::google::ShimFatal()
#define GSHIM_DFATAL ::google::ShimLog()
#define GSHIMIF_INFO(c) ::google::ShimLogIf(c)
#define GSHIMIF_WARNING(c) ::google::ShimLogIf(c)
#define GSHIMIF_ERROR(c) ::google::ShimLogIf(c)
#define GSHIMIF_DFATAL(c) ::google::ShimLogIf(c)
#define GSHIMIF_FATAL(c) ((c) ? ::google::ShimFatal() : ::google::ShimLog())
#define LOG(s) GSHIM_##s
#define PLOG(s) GSHIM_##s
#define SYSLOG(s) GSHIM_##s
#define DLOG(s) GSHIM_##s
#define VLOG(n) ::google::ShimLog()
#define DVLOG(n) ::google::ShimLog()
#define LOG_IF(s, c) GSHIMIF_##s(c)
#define PLOG_IF(s, c) GSHIMIF_##s(c)
#define DLOG_IF(s, c) GSHIMIF_##s(c)
#define VLOG_IF(n, c) ::google::ShimLogIf(c)
#define LOG_EVERY_N(s, n) GSHIM_##s
#define LOG_FIRST_N(s, n) GSHIM_##s
#define LOG_IF_EVERY_N(s, c, n) GSHIMIF_##s(c)
#define VLOG_IS_ON(n) false
#define CHECK(c) (c) ? (void)0 : ::google::Voidify() & ::google::ShimCheckFail()
#define PCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_NOTNULL(v) ::google::CheckNotNull(v)
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
