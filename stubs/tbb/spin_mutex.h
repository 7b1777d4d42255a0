#pragma once
// Environment stub: a mutual exclusion lock as the engine sees it (lockset tracking).
#ifdef SYM_THREADS // the native replay of a race: a real lock
#include <mutex>
#define SYM_LOCK(m) (m)->real.lock()
#define SYM_UNLOCK(m) (m)->real.unlock()
#else
extern "C" void sym_lock(const void *);
extern "C" void sym_unlock(const void *);
#define SYM_LOCK(m) sym_lock(m)
#define SYM_UNLOCK(m) sym_unlock(m)
#endif
namespace tbb
{
class spin_mutex
{
public:
#ifdef SYM_THREADS
    std::mutex real;
#endif
    spin_mutex() {}
    spin_mutex(const spin_mutex &) = delete;
    spin_mutex &operator=(const spin_mutex &) = delete;
    class scoped_lock
    {
        spin_mutex *m = nullptr;

    public:
        scoped_lock() {}
        scoped_lock(spin_mutex &x) { acquire(x); }
        scoped_lock(const scoped_lock &) = delete;
        ~scoped_lock()
        {
            if (m) release();
        }
        void acquire(spin_mutex &x)
        {
            SYM_LOCK(&x);
            m = &x;
        }
        bool try_acquire(spin_mutex &x)
        {
            acquire(x);
            return true;
        }
        void release()
        {
            SYM_UNLOCK(m);
            m = nullptr;
        }
    };
    void lock() { SYM_LOCK(this); }
    bool try_lock()
    {
        SYM_LOCK(this);
        return true;
    }
    void unlock() { SYM_UNLOCK(this); }
};
} // namespace tbb
