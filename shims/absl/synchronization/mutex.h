#ifndef VCSHIM_MUTEX_H_
#define VCSHIM_MUTEX_H_
namespace absl {
class Mutex { public: void Lock() {} void Unlock() {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} };
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
}
#endif
