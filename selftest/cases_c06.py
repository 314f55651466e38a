P = 'include/chia/ThreadPool.h'
WAIT = """			while(prev->job < job) {
				prev->signal.wait(lock);
			}
"""
RESET = """		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = -1;
		}
		state->signal.notify_all();
"""
OUT = """		if(output) {
			output->take(out);	// only one thread can be at this position
		}
"""
CASES = [
 ('c06-job16', ['C06'], [(P, '		uint64_t job = -1;\n		std::mutex', '		uint16_t job = -1;\n		std::mutex'), (P, '		uint64_t job = -1;\n		{', '		uint16_t job = -1;\n		{')]),
 ('c06-job32', ['C06'], [(P, '		uint64_t job = -1;\n		std::mutex', '		uint32_t job = -1;\n		std::mutex'), (P, '		uint64_t job = -1;\n		{', '		uint32_t job = -1;\n		{')]),
 ('c06-next16', ['C06'], [(P, 'uint64_t next = 0;', 'uint16_t next = 0;')]),
 ('c06-next32', ['C06'], [(P, 'uint64_t next = 0;', 'uint32_t next = 0;')]),
 ('c06-if', ['C06'], [(P, WAIT, WAIT.replace('while', 'if'))]),
 ('c06-lt', ['C06'], [(P, 'while(prev->job < job)', 'while(prev->job + 1 < job)')]),
 ('c06-prev', ['C06'], [(P, 'threads[((i + num_threads) - 1) % num_threads].get(),', 'threads[(i + 1) % num_threads].get(),')]),
 ('c06-prev2', ['C06'], [(P, 'threads[((i + num_threads) - 1) % num_threads].get(),', 'threads[std::max(i - 1, 0)].get(),')]),
 ('c06-early-reset', ['C06'], [(P, RESET, '		state->signal.notify_all();\n'), (P, OUT, """		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = -1;
		}
""" + OUT)]),
 ('c06-noreset', ['C06'], [(P, RESET, '		state->signal.notify_all();\n')]),
 ('c06-nonotify', ['C06'], [(P, '		state->signal.notify_all();\n', '')]),
 ('c06-notify-prev', ['C06'], [(P, '		state->signal.notify_all();\n', '		prev->signal.notify_all();\n')]),
 ('c06-nowait-take', ['C06'], [(P, '		const auto& state = threads[next % threads.size()];\n		state->thread->wait();\n', '		const auto& state = threads[next % threads.size()];\n')]),
 ('c06-job-after', ['C06'], [(P, """		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
		}
		state->thread->take(data);
""", """		state->thread->take(data);
		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
		}
""")]),
 ('c06-wait-first', ['C06'], [(P, """		for(const auto& state : threads) {
			state->thread->wait();
		}
""", """		threads[next % threads.size()]->thread->wait();
""")]),
 ('c06-nowait-close', [], [(P, '		wait();\n		for(const auto& state : threads) {\n			state->thread->close();', '		for(const auto& state : threads) {\n			state->thread->close();')]),
 ('c06-local-shared', ['C06'], [(P, 'execute(input, out, state->local);', 'execute(input, out, prev->local);')]),
 ('c06-getlocal', ['C06'], [(P, '	L& get_local(size_t index) {\n		const auto& state = threads[index];\n		state->thread->wait();\n', '	L& get_local(size_t index) {\n		const auto& state = threads[index];\n')]),
 ('c06-job-nolock', ['C06'], [(P, """			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
""", """			state->job = next;
""")]),
 ('c06-r-pred', [], [(P, WAIT, '			prev->signal.wait(lock, [prev, job]() { return prev->job >= job; });\n')]),
 ('c06-r-helper', [], [(P, OUT, '		deliver(out);\n'), (P, '	void wrapper(', """	void deliver(S& result)
	{
		if(!output) {
			return;
		}
		output->take(result);
	}
	
	void wrapper(""")]),
 ('c06-r-deliver-locked', [], [(P, RESET, """		std::unique_lock<std::mutex> own(state->mutex);
		state->job = std::numeric_limits<uint64_t>::max();
		own.unlock();
		state->signal.notify_all();
"""), (P, '#include <vector>', '#include <limits>\n#include <vector>')]),
 ('c06-r-notify-in', [], [(P, RESET, RESET.replace('		}\n		state->signal', '			state->signal.notify_all();\n		}\n		//'))]),
 ('c06-r-prev', [], [(P, 'threads[((i + num_threads) - 1) % num_threads].get(),', 'threads[i > 0 ? i - 1 : num_threads - 1].get(),')]),
 ('c06-r-idx', [], [(P, """		const auto& state = threads[next % threads.size()];
		state->thread->wait();
		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
		}
		state->thread->take(data);
		next++;
""", """		const uint64_t job = next++;
		auto* state = threads[job % threads.size()].get();
		state->thread->wait();
		state->mutex.lock();
		state->job = job;
		state->mutex.unlock();
		state->thread->take(data);
""")]),
]
