M = 'src/chia_plot.cpp'
T_ = 'include/chia/Thread.h'


def c(i, *eds):
    return (i, ['C18'], [(M,) + e for e in eds])


def ok(i, *eds):
    return (i, [], [(M,) + e for e in eds])


CHK = '''		if (gracefully_exit) {
			std::cout << std::endl << "Process has been interrupted, waiting for copy/rename operations to finish ..." << std::endl;
			break;
		}
'''
HANDLER = '''	if ( ( (get_wall_time_micros() - interrupt_timestamp) / 1e6) <= 1 ) {
		std::cout << std::endl << "Double Ctrl-C pressed, exiting now!" << std::endl;
		exit(-4);
	} else {
		interrupt_timestamp = get_wall_time_micros();
	}
    if (!gracefully_exit) {
'''
LOOP = 'for(int i = 0; i < num_plots || num_plots < 0; ++i)'
HAND = '''		if(final_dir != stage_dir)
		{
			if(!directout) {
'''
TAKE = '''				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));
				if(waitforcopy) {
					copy_thread.wait();
				}
'''
END = '''		if (tmptoggle) {
			tmp_dir.swap(tmp_dir2);
		}
'''
CATCH = '''				} catch(const std::exception& ex) {
					std::cout << "Copy to " << from_to.second << " failed with: " << ex.what() << std::endl;
					std::this_thread::sleep_for(std::chrono::minutes(5));
				}
'''
CASES = [
    c('c18-h-ge', ('/ 1e6) <= 1 )', '/ 1e6) >= 1 )')),
    c('c18-h-units', ('(get_wall_time_micros() - interrupt_timestamp) / 1e6) <= 1', '(get_wall_time_micros() - interrupt_timestamp) / 1e9) <= 1')),
    c('c18-h-flagexit', ('if ( ( (get_wall_time_micros() - interrupt_timestamp) / 1e6) <= 1 )', 'if ( gracefully_exit )')),
    c('c18-h-nots', ('		interrupt_timestamp = get_wall_time_micros();\n', '')),
    c('c18-h-noflag', ('    	gracefully_exit = true;\n', '    	gracefully_exit = false;\n')),
    c('c18-h-toggle', ('    if (!gracefully_exit) {', '    if (gracefully_exit) {')),
    c('c18-h-or', ('/ 1e6) <= 1 ) {', '/ 1e6) <= 1 || sig == SIGTERM ) {')),
    c('c18-sig-int', ('		std::signal(SIGINT, interrupt_handler);\n', '')),
    c('c18-sig-term', ('std::signal(SIGTERM, interrupt_handler)', 'std::signal(SIGINT, interrupt_handler)')),
    c('c18-sig-inf', ('if(num_plots > 1 || num_plots < 0) {', 'if(num_plots > 1) {')),
    c('c18-sig-two', ('if(num_plots > 1 || num_plots < 0) {', 'if(num_plots > 2 || num_plots < 0) {')),
    c('c18-chk-removed', (CHK, '')),
    c('c18-chk-inf', ('		if (gracefully_exit) {', '		if (gracefully_exit && num_plots >= 0) {')),
    c('c18-chk-before', (CHK, ''), ('	' + LOOP, '	if(gracefully_exit) {\n		return 0;\n	}\n	' + LOOP)),
    c('c18-chk-end-before-wait', (CHK, ''), (TAKE, '				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n				if(gracefully_exit) {\n					break;\n				}\n				if(waitforcopy) {\n					copy_thread.wait();\n				}\n')),
    c('c18-chk-exit', ('			break;\n		}\n		std::cout << "Crafting', '			exit(0);\n		}\n		std::cout << "Crafting')),
    c('c18-count-le', (LOOP, LOOP.replace('i < num_plots', 'i <= num_plots'))),
    c('c18-count-one', (LOOP, LOOP.replace('int i = 0', 'int i = 1'))),
    c('c18-count-noinf', (LOOP, LOOP.replace(' || num_plots < 0', ''))),
    c('c18-count-infbound', (LOOP, LOOP.replace('num_plots < 0', '(num_plots < 0 && i < 1)'))),
    c('c18-count-zero', (LOOP, LOOP.replace('num_plots < 0', 'num_plots <= 0'))),
    c('c18-count-break', (END, END + '		if(i == 1) {\n			break;\n		}\n')) if 0 else c('c18-count-two', (LOOP, LOOP.replace('++i', 'i += 2'))),
    c('c18-hand-or', ('			if(!directout) {', '			if(!directout && !waitforcopy) {')),
    c('c18-hand-toggle', ('			if(!directout) {', '			if(!directout && !tmptoggle) {')),
    c('c18-hand-cmp', ('		if(final_dir != stage_dir)\n', '		if(final_dir != tmp_dir)\n')),
    c('c18-hand-direct', ('			if(!directout) {', '			if(directout) {')),
    c('c18-hand-src', ('std::make_pair(out.plot_file_name, dst_path)', 'std::make_pair(dst_path, dst_path)')),
    c('c18-hand-dst', ('const auto dst_path = final_dir + out.params.plot_name + ".plot";', 'const auto dst_path = stage_dir + out.params.plot_name + ".plot";')),
    c('c18-hand-name', ('out.params.plot_name + ".plot"', 'out.params.plot_name + ".plot.tmp"')),
    c('c18-hand-swap', ('std::make_pair(out.plot_file_name, dst_path)', 'std::make_pair(dst_path, out.plot_file_name)')),
    c('c18-copy-once', ('					std::this_thread::sleep_for(std::chrono::minutes(5));\n', '					break;\n')),
    c('c18-copy-throw', ('					std::this_thread::sleep_for(std::chrono::minutes(5));\n', '					throw;\n')),
    c('c18-copy-limit', ('			while(true) {\n				try {', '			for(int n = 0; n < 100; ++n) {\n				try {')),
    c('c18-copy-limit2', ('			while(true) {\n				try {', '			int tries = 0;\n			while(true) {\n				try {'), ('					std::this_thread::sleep_for(std::chrono::minutes(5));\n', '					if(++tries > 10) {\n						break;\n					}\n					std::this_thread::sleep_for(std::chrono::minutes(5));\n')),
    c('c18-copy-interrupt', ('					std::this_thread::sleep_for(std::chrono::minutes(5));\n', '					if(gracefully_exit) {\n						return;\n					}\n					std::this_thread::sleep_for(std::chrono::minutes(5));\n')),
    c('c18-copy-catch', ('catch(const std::exception& ex) {\n					std::cout << "Copy to', 'catch(const std::logic_error& ex) {\n					std::cout << "Copy to')),
    c('c18-end-exit', ('	copy_thread.close();\n', '	if(gracefully_exit) {\n		exit(0);\n	}\n	copy_thread.close();\n')),
    c('c18-end-quick', ('	copy_thread.close();\n	\n	return 0;', '	std::quick_exit(0);')),

    ok('c18-ok-noclose', ('	copy_thread.close();\n', '')),
    ok('c18-ok-while', ('	' + LOOP + '\n	{\n' + CHK, '	int i = 0;\n	while((i < num_plots || num_plots < 0) && !gracefully_exit)\n	{\n'), (END, END + '		i++;\n')),
    ok('c18-ok-while2', ('	' + LOOP + '\n	{\n', '	int i = 0;\n	while(true)\n	{\n		if(num_plots >= 0 && i >= num_plots) {\n			break;\n		}\n'), (END, END + '		++i;\n')),
    ok('c18-ok-flagcond', (LOOP, 'for(int i = 0; !gracefully_exit && (i < num_plots || num_plots < 0); ++i)'), (CHK, '')),
    ok('c18-ok-done', ('			while(true) {\n				try {', '			bool done = false;\n			while(!done) {\n				try {'), ('					break;\n				} catch', '					done = true;\n				} catch')),
    c('c18-done-catch', ('			while(true) {\n				try {', '			bool done = false;\n			while(!done) {\n				try {'), ('					break;\n				} catch', '					done = true;\n				} catch'), ('					std::this_thread::sleep_for(std::chrono::minutes(5));\n', '					done = true;\n')),
    ok('c18-ok-return', ('					break;\n				} catch', '					return;\n				} catch')),
    ok('c18-ok-catchall', ('catch(const std::exception& ex) {\n					std::cout << "Copy to " << from_to.second << " failed with: " << ex.what() << std::endl;', 'catch(...) {\n					std::cout << "Copy failed" << std::endl;')),
    ok('c18-ok-lambda', ('	Thread<std::pair<std::string, std::string>> copy_thread(\n		[](', '	const auto copy_func = [](' ), ('				}\n			}\n		}, "final/copy");', '				}\n			}\n		};\n	Thread<std::pair<std::string, std::string>> copy_thread(copy_func, "final/copy");')),
    ok('c18-ok-handler', (HANDLER, '''	const auto now = get_wall_time_micros();
	const auto delta = now - interrupt_timestamp;
	if(delta <= 1000000) {
		std::cout << std::endl << "Double Ctrl-C pressed, exiting now!" << std::endl;
		exit(-4);
	}
	interrupt_timestamp = now;
    if (!gracefully_exit) {
''')),
    ok('c18-ok-handler2', ('    if (!gracefully_exit) {', '    const bool first = !gracefully_exit;\n    gracefully_exit = true;\n    if(first) {'), ('    	gracefully_exit = true;\n    }\n}', '    }\n}')),
    ok('c18-ok-sigall', ('if(num_plots > 1 || num_plots < 0) {', 'if(num_plots != 1) {')),
    ok('c18-ok-sigloop', ('		std::signal(SIGINT, interrupt_handler);\n		std::signal(SIGTERM, interrupt_handler);\n', '		for(const int sig : {SIGINT, SIGTERM}) {\n			std::signal(sig, interrupt_handler);\n		}\n')),
    ok('c18-ok-sigaction', ('		std::signal(SIGINT, interrupt_handler);\n		std::signal(SIGTERM, interrupt_handler);\n', '		struct sigaction sa = {};\n		sa.sa_handler = interrupt_handler;\n		sigaction(SIGINT, &sa, nullptr);\n		sigaction(SIGTERM, &sa, nullptr);\n')),
    ok('c18-ok-merged', (HAND, '		const bool need_copy = final_dir != stage_dir;\n		if(need_copy)\n		{\n			if(!directout) {\n')),
    ok('c18-ok-plotdir', ('		const auto out = create_plot(', '		const std::string plot_dir = directout ? final_dir : stage_dir;\n		const auto out = create_plot('), ('directout ? final_dir : stage_dir);', 'plot_dir);')),
    ok('c18-ok-pair', ('copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));', 'std::pair<std::string, std::string> job(out.plot_file_name, dst_path);\n				copy_thread.take(job);')),
    ok('c18-ok-remaining', ('	' + LOOP, '	const bool infinite = num_plots < 0;\n	for(int i = 0; infinite || i < num_plots; ++i)')),
    ok('c18-ok-down', ('	' + LOOP + '\n', '	for(int left = num_plots; left > 0 || num_plots < 0; --left)\n'), ('<< i+1 << " out of "', '<< (num_plots - left + 1) << " out of "')),
    ok('c18-ok-helper', ('int main(int argc, char** argv)', '''static bool should_continue(const int i, const int num_plots)
{
	if(num_plots < 0) {
		return true;
	}
	return i < num_plots;
}

int main(int argc, char** argv)'''), (LOOP, 'for(int i = 0; should_continue(i, num_plots); ++i)')),
    ok('c18-ok-swaplog', ('				std::cout << "Started copy to " << dst_path << std::endl;\n				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n', '				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n				std::cout << "Started copy to " << dst_path << std::endl;\n')),
]
