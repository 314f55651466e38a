// abstract stage used when ThreadPool is analysed: the behaviour that C05 establishes for the real class, with blocking expressed by st_* primitives
#ifndef INCLUDE_CHIA_THREAD_H_
#define INCLUDE_CHIA_THREAD_H_
#include <mutex>
#include <thread>
#include <atomic>
#include <iostream>
#include <functional>
#include <condition_variable>
#define ST_NOINLINE __attribute__((noinline))
extern "C" {
void st_await_zero(const volatile unsigned char* a, const volatile unsigned char* b);	// blocks until both are zero
void st_await_any(const volatile unsigned char* a, const volatile unsigned char* b);	// blocks until one is not zero
void st_spawn(void (*f)(void*), void* p);
}
template<typename T>
class Processor {
public:
	virtual ~Processor() {}
	virtual void take(T& data) = 0;
	void take_copy(const T& data) { T copy = data; take(copy); }
};
template<typename T>
class Thread : public Processor<T> {
public:
	ST_NOINLINE Thread(const std::function<void(T&)>& func, const std::string& name = "") : execute(func) {
		alive = 1;
		st_spawn(&Thread::body, this);
	}
	ST_NOINLINE virtual ~Thread() { close(); }
	ST_NOINLINE void take(T& data) override {
		st_await_zero(&avail, &avail);
		if(stop) return;
		input = std::move(data);
		avail = 1;
		if(busy) st_await_zero(&avail, &avail);
	}
	ST_NOINLINE void wait() {
		st_await_zero(&avail, &busy);
		if(fail) throw std::runtime_error("thread failed");
	}
	ST_NOINLINE void close() {
		wait();
		stop = 1;
		st_await_zero(&alive, &alive);
	}
private:
	ST_NOINLINE static void body(void* p) { static_cast<Thread*>(p)->loop(); }
	ST_NOINLINE void loop() noexcept {
		while(true) {
			st_await_any(&avail, &stop);
			if(stop) break;
			T tmp = std::move(input);
			avail = 0;
			busy = 1;
			try {
				execute(tmp);
			} catch(...) {
				fail = 1;
				stop = 1;
				avail = 0;
			}
			busy = 0;
		}
		alive = 0;
	}
	T input;
	volatile unsigned char avail = 0, busy = 0, stop = 0, fail = 0, alive = 0;
	std::function<void(T&)> execute;
};
#endif
