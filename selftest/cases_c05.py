T = 'include/chia/Thread.h'
TAKEW = """		while(do_run && is_avail) {
			signal.wait(lock);
		}
		if(!do_run) {
			return;
		}
"""
LOOPW = """			while(do_run && !is_avail) {
				signal.notify_all();	// notify about is_busy change
				signal.wait(lock);
			}
			if(!do_run) {
				break;
			}
"""
CASES = [
 ('c05-if-take', ['C05'], [(T, TAKEW, TAKEW.replace('while', 'if'))]),
 ('c05-if-loop', ['C05'], [(T, LOOPW, LOOPW.replace('while(do', 'if(do'))]),
 ('c05-nobusy', ['C05'], [(T, '			is_busy = true;\n', '')]),
 ('c05-busy-late', ['C05'], [(T, '			is_busy = true;\n			lock.unlock();\n', '			lock.unlock();\n			is_busy = true;\n')]),
 ('c05-move-late', ['C05'], [(T, '			T tmp = std::move(input);\n			is_avail = false;', '			is_avail = false;'), (T, '			try {\n				execute(tmp);', '			T tmp = std::move(input);\n			try {\n				execute(tmp);')]),
 ('c05-nofail', ['C05'], [(T, '				is_fail = true;\n', '')]),
 ('c05-nostop', [], [(T, '				do_run = false;\n				is_fail = true;\n', '				is_fail = true;\n')]),
 ('c05-noavail-clear', ['C05'], [(T, '			is_avail = false;\n', '')]),
 ('c05-wait-busy-only', ['C05'], [(T, '(is_avail || is_busy)', '(is_busy)')]),
 ('c05-wait-avail-only', ['C05'], [(T, '(is_avail || is_busy)', '(is_avail)')]),
 ('c05-nonotify', ['C05'], [(T, '				signal.notify_all();	// notify about is_busy change\n', '')]),
 ('c05-nonotify2', ['C05'], [(T, '			lock.unlock();\n			signal.notify_all();\n		}\n	}\n', '			lock.unlock();\n		}\n	}\n')]),
 ('c05-nonotify-end', ['C05'], [(T, '		signal.notify_all();		// notify about do_run + is_fail + is_busy change\n', '')]),
 ('c05-notify-one', ['C05'], [(T, '			signal.notify_all();		// notify about is_busy + is_avail change', '			signal.notify_one();'), (T, '				signal.notify_all();	// notify about is_busy change', '				signal.notify_one();')]),
 ('c05-close-nowait', ['C05'], [(T, '		wait();\n		std::unique_lock', '		std::unique_lock')]),
 ('c05-close-swallow', ['C05'], [(T, '		wait();\n		std::unique_lock', '		try { wait(); } catch(...) {}\n		std::unique_lock')]),
 ('c05-unlock-early', ['C05'], [(T, '				execute(tmp);\n				lock.lock();', '				lock.lock();\n				execute(tmp);')]),
 ('c05-take-nolock', ['C05'], [(T, '		is_avail = true;\n		input = std::move(data);\n', '		lock.unlock();\n		input = std::move(data);\n		lock.lock();\n		is_avail = true;\n')]),
 ('c05-take-order', ['C05'], [(T, '		is_avail = true;\n		input = std::move(data);\n', '		is_avail = true;\n		lock.unlock();\n		input = std::move(data);\n		lock.lock();\n')]),
 ('c05-wait-racy', ['C05'], [(T, '	void wait() {\n', '	void wait() {\n		if(!is_avail && !is_busy && !is_fail) {\n			return;\n		}\n')]),
 ('c05-detach', ['C05'], [(T, '			thread.join();', '			thread.detach();')]),
 # behaviour kept
 ('c05-r-pred', [], [(T, TAKEW, """		signal.wait(lock, [this]() { return !do_run || !is_avail; });
		if(!do_run) {
			return;
		}
"""), (T, """		while(do_run && (is_avail || is_busy)) {
			signal.wait(lock);
		}
""", """		signal.wait(lock, [this]() { return !do_run || !(is_avail || is_busy); });
""")]),
 ('c05-r-helper', [], [(T, LOOPW, """			await_input(lock);
			if(!do_run) {
				break;
			}
"""), (T, 'private:\n	void loop(', """private:
	void await_input(std::unique_lock<std::mutex>& lock)
	{
		for(;;) {
			if(!do_run || is_avail) {
				return;
			}
			signal.notify_all();
			signal.wait(lock);
		}
	}
	
	void loop(""")]),
 ('c05-r-order', [], [(T, '			T tmp = std::move(input);\n			is_avail = false;\n			is_busy = true;\n', '			is_busy = true;\n			is_avail = false;\n			T tmp(std::move(input));\n'), (T, '		is_avail = true;\n		input = std::move(data);\n', '		input = std::move(data);\n		is_avail = true;\n')]),
 ('c05-r-enum', [], [(T, '	bool is_avail = false;\n', '	int avail_count = 0;\n'), (T, 'while(do_run && is_avail) {', 'while(do_run && avail_count > 0) {'),
   (T, '		is_avail = true;\n', '		++avail_count;\n'), (T, 'while(do_run && is_avail && is_busy) {', 'while(do_run && avail_count && is_busy) {'), (T, '(is_avail || is_busy)', '(avail_count != 0 || is_busy)'),
   (T, 'while(do_run && !is_avail) {', 'while(do_run && avail_count == 0) {'), (T, '			is_avail = false;\n', '			--avail_count;\n')]),
 ('c05-r-notify-locked', [], [(T, """			lock.unlock();
			signal.notify_all();
		}
	}
""", """			signal.notify_all();
			lock.unlock();
		}
	}
""")]),
 ('c05-r-close', [], [(T, """		std::unique_lock<std::mutex> lock(mutex);
		do_run = false;
		if(thread.joinable()) {
			lock.unlock();
			signal.notify_all();
			thread.join();
		}
""", """		{
			std::lock_guard<std::mutex> lock(mutex);
			do_run = false;
		}
		signal.notify_all();
		if(thread.joinable()) {
			thread.join();
		}
""")]),
]
