// scripted sockets and hand-made sender/receiver threads for the demonstrations
#pragma once
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <boost/asio.hpp>
#define private public
#define protected public
#ifdef RECEIVER
#include <wdt/Receiver.h>
#include <wdt/ReceiverThread.h>
#else
#include <wdt/Sender.h>
#include <wdt/SenderThread.h>
#include <wdt/util/ThreadTransferHistory.h>
#endif
#undef private
#undef protected
using namespace facebook::wdt;

template <class Base>
struct FakeSock : Base {
  std::string in, out, ip = "127.0.0.1";
  size_t pos = 0;
  std::function<int(char*, int)> onRead;
  std::function<int(const char*, int)> onWrite;
  ErrorCode eos = OK, readErr = SOCKET_READ_ERROR;
  EncryptionType enc = ENC_NONE;
  bool closed = false;
  int read(char* b, int n, bool full = true) override {
    if (onRead) return onRead(b, n);
    int k = std::min<int>(n, in.size() - pos);
    memcpy(b, in.data() + pos, k);
    pos += k;
    return k;
  }
  int readWithTimeout(char* b, int n, int, bool full = true) override { return read(b, n, full); }
  int write(const char* b, int n) {
    int k = onWrite ? onWrite(b, n) : n;
    if (k > 0) out.append(b, k);
    return k;
  }
  int write(char* b, int n, bool) override { return write(b, n); }
  ErrorCode shutdownWrites() override { return OK; }
  ErrorCode expectEndOfStream() override { return eos; }
  ErrorCode closeConnection() override { closed = true; return OK; }
  void closeNoCheck() override { closed = true; }
  int getFd() const override { return -1; }
  int getPort() const override { return 22356; }
  EncryptionType getEncryptionType() const override { return enc; }
  ErrorCode getNonRetryableErrCode() const override { return OK; }
  ErrorCode getReadErrCode() const override { return readErr; }
  ErrorCode getWriteErrCode() const override { return OK; }
};
#ifndef RECEIVER
struct FakeClient : FakeSock<IClientSocket> {
  ErrorCode connect() override { return OK; }
  const std::string& getPeerIp() const override { return ip; }
  int getUnackedBytes() const override { return 0; }
};
#else
struct FakeServer : FakeSock<IServerSocket> {
  ErrorCode listen() override { return OK; }
  ErrorCode acceptNextConnection(int, bool) override { return OK; }
  std::string getPeerIp() const override { return ip; }
  std::string getPeerPort() const override { return "1"; }
  int getBackLog() const override { return 1; }
  void closeAllNoCheck() override { closed = true; }
  void disableIvChange() override {}
};
#endif

#ifndef RECEIVER
struct SenderRig {
  WdtTransferRequest req;
  std::unique_ptr<Sender> s;
  std::unique_ptr<SenderThread> t;
  FakeClient* sock;
  explicit SenderRig(const std::string& dir, std::function<void(WdtOptions&)> opt = nullptr) : req(22356, 1, dir) {
    req.hostName = "localhost";
    req.transferId = "demo";
    s.reset(new Sender(req));
    auto& o = const_cast<WdtOptions&>(s->getWdtOptions());
    if (opt) opt(o);
    s->init();
    s->dirQueue_.reset(new DirectorySourceQueue(s->options_, dir, &s->queueAbortChecker_));
    s->transferHistoryController_ = std::make_unique<TransferHistoryController>(*s->dirQueue_);
    s->checkAndUpdateBufferSize();
    s->threadsController_ = new ThreadsController(1);
    s->threadsController_->setNumBarriers(SenderThread::NUM_BARRIERS);
    s->threadsController_->setNumFunnels(SenderThread::NUM_FUNNELS);
    s->threadsController_->setNumConditions(SenderThread::NUM_CONDITIONS);
    t.reset(new SenderThread(s.get(), 0, 22356, s->threadsController_));
    sock = new FakeClient;
    t->socket_.reset(sock);
  }
};
#else
struct ReceiverRig {
  WdtTransferRequest req;
  std::unique_ptr<Receiver> r;
  std::unique_ptr<ReceiverThread> t;
  FakeServer* sock;
  explicit ReceiverRig(const std::string& dir, std::function<void(WdtOptions&)> opt = nullptr) : req(22356, 1, dir) {
    req.transferId = "demo";
    r.reset(new Receiver(req));
    auto& o = const_cast<WdtOptions&>(r->getWdtOptions());
    if (opt) opt(o);
    r->transferLogManager_ = std::make_unique<TransferLogManager>(r->options_, dir);
    r->checkAndUpdateBufferSize();
    r->threadsController_ = new ThreadsController(1);
    r->threadsController_->setNumBarriers(ReceiverThread::NUM_BARRIERS);
    r->threadsController_->setNumFunnels(ReceiverThread::NUM_FUNNELS);
    r->threadsController_->setNumConditions(ReceiverThread::NUM_CONDITIONS);
    r->fileCreator_.reset(new FileCreator(dir, 1, *r->transferLogManager_, r->options_.skip_writes));
    t.reset(new ReceiverThread(r.get(), 0, 22356, r->threadsController_));
    sock = new FakeServer;
    t->socket_.reset(sock);
  }
};
#endif
inline std::string cwdPath(const std::string& x) {
  char b[4096];
  return std::string(getcwd(b, sizeof b)) + "/" + x;
}
inline void put(const std::string& p, const std::string& d) {
  std::ofstream(p) << d;
}
inline std::string get(const std::string& p) {
  std::ifstream f(p);
  return std::string((std::istreambuf_iterator<char>(f)), {});
}
