I = 'include/chia/'
P1, P2, P3, P4, DS, DT, TP, BF = (I + x for x in ('phase1.hpp', 'phase2.hpp', 'phase3.hpp', 'phase4.hpp', 'DiskSort.hpp', 'DiskTable.h', 'ThreadPool.h', 'bitfield.hpp'))
EN = I + 'encoding.hpp'
LG = '        std::lock_guard<std::mutex> l(memoMutex);\n'
CTGET = '    {\n' + LG + '        return CT_MEMO[R];\n'
CTEX = '    {\n' + LG + '        return (CT_MEMO.find(R) != CT_MEMO.end());\n'
CTAS = '    {\n' + LG + '        CT_MEMO[R] = ct;\n'
ADD2 = """	ThreadPool<std::vector<S>, size_t, std::shared_ptr<WriteCache>> R_add(
		[R_sort](std::vector<S>& input, size_t&, std::shared_ptr<WriteCache>& cache) {
			if(!cache) {
				cache = R_sort->add_cache();
			}
			for(auto& entry : input) {
				cache->add(entry);
			}
		}, nullptr, std::max(num_threads / 2, 1), "phase2/add");
"""
COUNT = """	Thread<std::vector<S>> R_count(
		[R_out, &num_written](std::vector<S>& input) {
			for(auto& entry : input) {
				set_sort_key<S>{}(entry, num_written++);
			}
			R_out->take(input);
		}, "phase2/count");
"""
CASES = [
 ('c07-plain-counter', ['C07'], [(P3, '	std::atomic<uint64_t> R_num_write {0};', '	uint64_t R_num_write = 0;')]),
 ('c07-plain-counter2', ['C07'], [(P3, '	std::atomic<uint64_t> num_written_final {0};', '	uint64_t num_written_final = 0;')]),
 ('c07-load-store', ['C07'], [(P3, '			R_num_write += input.size();', '			R_num_write = R_num_write + input.size();')]),
 ('c07-found', ['C07'], [(P1, '	std::atomic<uint64_t> num_found {};', '	uint64_t num_found = 0;')]),
 ('c07-shared-cache', ['C07'], [(P2, ADD2, """	std::shared_ptr<WriteCache> cache;
	ThreadPool<std::vector<S>, size_t> R_add(
		[R_sort, &cache](std::vector<S>& input, size_t&, size_t&) {
			if(!cache) {
				cache = R_sort->add_cache();
			}
			for(auto& entry : input) {
				cache->add(entry);
			}
		}, nullptr, std::max(num_threads / 2, 1), "phase2/add");
""")]),
 ('c07-count-pool', ['C07'], [(P2, COUNT, COUNT.replace('Thread<std::vector<S>> R_count', 'ThreadPool<std::vector<S>, size_t> R_count').replace('(std::vector<S>& input)', '(std::vector<S>& input, size_t&, size_t&)').replace('"phase2/count"', 'nullptr, 2, "phase2/count"'))]),
 ('c07-write-pool', ['C07'], [(P2, """	Thread<std::vector<S>> R_write(
		[R_file](std::vector<S>& input) {""", """	ThreadPool<std::vector<S>, size_t> R_write(
		[R_file](std::vector<S>& input, size_t&, size_t&) {"""), (P2, '"phase2/write");', 'nullptr, 2, "phase2/write");')]),
 ('c07-table-from-map', ['C07'], [(P2, '		[&index, R_used](std::pair<std::vector<T>, size_t>& input, std::vector<S>& out, size_t&) {', '		[&index, R_used, &num_written](std::pair<std::vector<T>, size_t>& input, std::vector<S>& out, size_t&) {'),
     (P2, '				out.push_back(tmp);', '				out.push_back(tmp);\n				num_written++;')]),
 ('c07-park-pool-write', ['C07'], [(P3, '		[L_index, k, L_final_begin, park_size_bytes, &num_written_final]', '		[L_index, k, L_final_begin, park_size_bytes, &num_written_final, plot_file]'),
     (P3, '				out.emplace_back(std::move(tmp));\n', '				fwrite_at(plot_file, tmp.offset, tmp.buffer.data(), tmp.buffer.size());\n				out.emplace_back(std::move(tmp));\n')]),
 ('c07-write-pool3', ['C07'], [(P3, """	Thread<std::vector<park_out_t>> park_write(
		[plot_file](std::vector<park_out_t>& input) {""", """	ThreadPool<std::vector<park_out_t>, size_t> park_write(
		[plot_file](std::vector<park_out_t>& input, size_t&, size_t&) {"""), (P3, '"phase3/write");', 'nullptr, 2, "phase3/write");')]),
 ('c07-write-pool4', ['C07'], [(P4, """    Thread<std::vector<write_data_t>> plot_write(
		[plot_file](std::vector<write_data_t>& input) {""", """    ThreadPool<std::vector<write_data_t>, size_t> plot_write(
		[plot_file](std::vector<write_data_t>& input, size_t&, size_t&) {"""), (P4, '"phase4/write");', 'nullptr, 2, "phase4/write");')]),
 ('c07-c1-direct', ['C07'], [(P4, '	[k, begin_byte_C3, C3_size, P7_park_size, &num_C1_entries,', '	[plot_file, k, begin_byte_C3, C3_size, P7_park_size, &num_C1_entries,'),
     (P4, """				{
					std::vector<write_data_t> out_;
					out_.emplace_back(std::move(out));
					plot_write.take(out_);
				}
""", "				fwrite_at(plot_file, out.offset, out.buffer.data(), out.buffer.size());\n")]),
 ('c07-shared-tmp', ['C07'], [(P3, '	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>> park_threads(\n', '	std::vector<uint8_t> deltas;\n	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>> park_threads(\n'),
     (P3, 'park_size_bytes, &num_written_final]', 'park_size_bytes, &num_written_final, &deltas]'), (P3, '				std::vector<uint8_t> deltas(points.size() - 1);', '				deltas.resize(points.size() - 1);')]),
 ('c07-static-tmp', ['C07'], [(P3, '				std::vector<uint8_t> deltas(points.size() - 1);', '				static std::vector<uint8_t> deltas;\n				deltas.resize(points.size() - 1);')]),
 ('c07-merge-nolock', ['C07'], [(P3, '						std::unique_lock<std::mutex> lock(mutex);\n						while(true) {', '						std::mutex own;\n						std::unique_lock<std::mutex> lock(own);\n						while(true) {')]),
 ('c07-unlock-early', ['C07'], [(P3, '			L_input.emplace_back(std::move(tmp));\n			lock.unlock();', '			lock.unlock();\n			L_input.emplace_back(std::move(tmp));')]),
 ('c07-end-nolock', ['C07'], [(P3, """	{
		std::lock_guard<std::mutex> lock(mutex);
		L_is_end = true;
		signal.notify_all();
	}
	R_sort_read.join();""", """	L_is_end = true;
	signal.notify_all();
	R_sort_read.join();""")]),
 ('c07-rend-nolock', ['C07'], [(P3, """			{
				std::lock_guard<std::mutex> lock(mutex);
				R_is_end = true;
				signal_1.notify_all();
			}""", """			R_is_end = true;
			signal_1.notify_all();""")]),
 ('c07-bucket-nolock', ['C07'], [(DS, '	std::lock_guard<std::mutex> lock(mutex);\n', '')]),
 ('c07-wrong-lock', ['C07'], [(DS, '	std::lock_guard<std::mutex> lock(mutex);\n', '	std::mutex mutex_;\n	std::lock_guard<std::mutex> lock(mutex_);\n')]),
 ('c07-bitfield-ls', ['C07'], [(BF, '        buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', '        auto& word = buffer_[bit / 64];\n        word.store(word.load() | (uint64_t(1) << (bit % 64)));')]),
 ('c07-bitfield-assign', ['C07'], [(BF, '        buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', '        buffer_[bit / 64] = buffer_[bit / 64] | uint64_t(1) << (bit % 64);')]),
 ('c07-bitfield-plain', ['C07'], [(BF, 'new std::atomic<uint64_t>[(size', 'new uint64_t[(size'), (BF, 'std::unique_ptr<std::atomic<uint64_t>[]> buffer_', 'std::unique_ptr<uint64_t[]> buffer_')]),
 ('c07-memo-get', ['C07'], [(EN, CTGET, CTGET.replace(LG, ''))]),
 ('c07-memo-exists', ['C07'], [(EN, CTEX, CTEX.replace(LG, ''))]),
 ('c07-memo-assign', ['C07'], [(EN, CTAS, CTAS.replace(LG, ''))]),
 ('c07-memo-publish', ['C07'], [(EN, '            size_t err = FSE_buildCTable(ct,', '            tmCache.CTAssign(R, ct);\n            size_t err = FSE_buildCTable(ct,'), (EN, '            }\n            tmCache.CTAssign(R, ct);\n', '            }\n')]),
 ('c07-bits-shared', ['C07'], [(P3, '	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>> park_threads(\n', '	ParkBits stub_bits;\n	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>> park_threads(\n'),
     (P3, 'park_size_bytes, &num_written_final]', 'park_size_bytes, &num_written_final, &stub_bits]'), (P3, '				ParkBits stub_bits;\n', '				stub_bits = ParkBits();\n')]),
 ('c07-sort-read-out', ['C07'], []),
 ('c07-matches-fx', ['C07'], [(P1, '	ThreadPool<std::vector<match_input_t>, std::vector<match_t<T>>, FxMatcher<T>> match_pool(\n		[&num_found, &num_written]\n		 (std::vector<match_input_t>& input, std::vector<match_t<T>>& out, FxMatcher<T>& Fx) {',
     '	FxMatcher<T> Fx;\n	ThreadPool<std::vector<match_input_t>, std::vector<match_t<T>>> match_pool(\n		[&num_found, &num_written, &Fx]\n		 (std::vector<match_input_t>& input, std::vector<match_t<T>>& out, size_t&) {')]),
 ('c07-eval-shared', ['C07'], [(P1, '				S entry;\n				entry.pos', '				static S entry;\n				entry.pos')]),
 ('c07-cache-map', ['C07'], [(I + 'encoding.hpp', 'std::lock_guard<std::mutex> lock(mutex);', '')] if False else []),
 # C08
 ('c08-count-order', ['C08'], [(P2, '	map_pool.close();\n	R_count.close();', '	R_count.close();\n	map_pool.close();')]),
 ('c08-add-order', ['C08'], [(P2, '	R_count.close();\n	R_write.close();\n	R_add.close();', '	R_write.close();\n	R_add.close();\n	R_count.close();')]),
 ('c08-no-pool-close', ['C08'], [(P2, '		R_input.read(&pool, num_threads_read);\n		pool.close();\n		\n', '		R_input.read(&pool, num_threads_read);\n		\n')] if False else []),
 ('c08-finish-first', ['C08'], [(P1, '	R_add.close();\n	\n	if(R_sort) {\n		R_sort->finish();\n	}', '	if(R_sort) {\n		R_sort->finish();\n	}\n	R_add.close();')]),
 ('c08-f1-finish', ['C08'], [(P1, '	pool.close();\n	output.close();\n	T1_sort->finish();', '	pool.close();\n	T1_sort->finish();')]),
 ('c08-f1-order', ['C08'], [(P1, '	pool.close();\n	output.close();\n', '	output.close();\n	pool.close();\n')]),
 ('c08-noreadclose', ['C08'], [(P1, '	read_thread.close();\n	match_pool.close();', '	match_pool.close();\n	read_thread.close();')]),
 ('c08-last-late', ['C08'], [(P1, """	read_thread.close();
	match_pool.close();
	
	if(L_index[1]""", """	read_thread.close();
	match_pool.close();
	eval_pool.close();
	
	if(L_index[1]"""), (P1, '		eval_pool.take(matches);\n	}\n	eval_pool.close();', '		eval_pool.take(matches);\n	}')]),
 ('c08-eval-matchlive', ['C08'], [(P1, '	read_thread.close();\n	match_pool.close();\n	\n	if(L_index', '	match_pool.wait();\n	\n	if(L_index'), (P1, '	eval_pool.close();\n	R_add', '	read_thread.close();\n	match_pool.close();\n	eval_pool.close();\n	R_add')]),
 ('c08-table-close', ['C08'], [(P1, '	L_write.close();\n	R_write.close();\n	\n	if(L_tmp) {\n		L_tmp->close();\n	}', '	if(L_tmp) {\n		L_tmp->close();\n	}\n	L_write.close();\n	R_write.close();\n')]),
 ('c08-rfile-flush', ['C08'], [(P2, '	R_write.close();\n	R_add.close();\n	\n', '	R_add.close();\n	\n')]),
 ('c08-s2-final', ['C08'], [(P3, '	R_sort->read(&R_read, num_threads);\n	R_read.close();\n	\n', '	R_sort->read(&R_read, num_threads);\n	\n'), (P3, '	park_threads.close();\n', '	R_read.close();\n	park_threads.close();\n')]),
 ('c08-s2-ladd', ['C08'], [(P3, '	L_add.close();\n	\n	L_sort->finish();', '	L_sort->finish();\n	L_add.close();')]),
 ('c08-s2-write', ['C08'], [(P3, '	park_threads.close();\n	park_write.close();', '	park_write.close();\n	park_threads.close();')]),
 ('c08-s1-join', ['C08'], [(P3, '	R_sort_read.join();\n	R_add_2.close();', '	R_add_2.close();\n	R_sort_read.join();')]),
 ('c08-s1-finish', ['C08'], [(P3, '	R_add_2.close();\n	\n	R_sort_2->finish();', '	R_sort_2->finish();\n	R_add_2.close();')]),
 ('c08-s1-rread', ['C08'], [(P3, '			R_read.close();\n', '')]),
 ('c08-s1-lread', ['C08'], [(P3, '		L_read_1.close();\n', '')]),
 ('c08-p4-write', ['C08'], [(P4, '    park_threads.close();\n    p7_threads.close();\n    plot_write.close();\n', '    park_threads.close();\n    plot_write.close();\n    p7_threads.close();\n')]),
 ('c08-p4-nowrite', ['C08'], [(P4, '    p7_threads.close();\n    plot_write.close();\n', '    p7_threads.close();\n')]),
 ('c08-p4-read', ['C08'], [(P4, '    read_thread.close();\n    \n', '    \n'), (P4, '    park_threads.close();\n', '    read_thread.close();\n    park_threads.close();\n')]),
 ('c08-ds-order', ['C08'], [(DS, '	read_pool.close();\n	sort_thread.close();\n	sort_pool.close();', '	sort_thread.close();\n	read_pool.close();\n	sort_pool.close();')]),
 ('c08-ds-order2', ['C08'], [(DS, '	read_pool.close();\n	sort_thread.close();\n	sort_pool.close();', '	read_pool.close();\n	sort_pool.close();\n	sort_thread.close();')]),
 ('c08-ds-noclose', ['C08'], [(DS, '	read_pool.close();\n	sort_thread.close();\n	sort_pool.close();', '	read_pool.wait();\n	sort_pool.close();')]),
 ('c08-dt-late', ['C08'], [(DT, '\t\tif(left_over) {\n\t\t\tpool.take_copy(std::make_pair(offset, left_over));\n\t\t}\n\t\tpool.close();', '\t\tpool.close();\n\t\tif(left_over) {\n\t\t\tpool.take_copy(std::make_pair(offset, left_over));\n\t\t}')]),
 ('c08-wait-only', ['C08'], [(P2, '	map_pool.close();\n	R_count.close();\n	R_write.close();\n	R_add.close();', '	R_add.wait();\n	R_write.wait();\n	R_count.wait();\n	map_pool.wait();')]),
 # refactorings: quiet
 ('r07-order-adds', [], [(P2, '	R_write.close();\n	R_add.close();', '	R_add.close();\n	R_write.close();')]),
 ('r07-p4-order', [], [(P4, '    park_threads.close();\n    p7_threads.close();', '    p7_threads.close();\n    park_threads.close();')]),
 ('r07-fetch-add', [], [(P3, '			R_num_write += input.size();', '			R_num_write.fetch_add(input.size());')]),
 ('r07-local-sum', [], [(P3, '				num_written_final += points.size();\n			}', '				count += points.size();\n			}\n			num_written_final += count;'), (P3, '			for(const auto& park : input) {\n				const auto& points', '			uint64_t count = 0;\n			for(const auto& park : input) {\n				const auto& points')]),
 ('r07-mutex-count', [], [(P3, '	std::atomic<uint64_t> R_num_write {0};', '	uint64_t R_num_write = 0;\n	std::mutex count_mutex;'), (P3, '		[R_sort_2, &R_num_write]', '		[R_sort_2, &R_num_write, &count_mutex]'), (P3, '			R_num_write += input.size();', '			std::lock_guard<std::mutex> lock(count_mutex);\n			R_num_write += input.size();')]),
 ('r07-wait-close', [], [(P2, '	map_pool.close();\n', '	map_pool.wait();\n	map_pool.close();\n')]),
 ('r07-helper', [], [(P2, 'template<typename T, typename S, typename DS>\nvoid compute_table(', 'template<typename A, typename B>\nstatic void close_both(A& a, B& b) {\n	a.close();\n	b.close();\n}\n\ntemplate<typename T, typename S, typename DS>\nvoid compute_table('), (P2, '	map_pool.close();\n	R_count.close();\n', '	close_both(map_pool, R_count);\n')]),
 ('r07-named-lambda', [], [(P2, COUNT, """	auto count_func = [R_out, &num_written](std::vector<S>& input) {
		for(size_t i = 0; i < input.size(); ++i) {
			set_sort_key<S>{}(input[i], num_written++);
		}
		R_out->take(input);
	};
	Thread<std::vector<S>> R_count(count_func, "phase2/count");
""")]),
 ('r07-scope', [], [(P1, '	pool.close();\n	output.close();\n	T1_sort->finish();', '	pool.close();\n	output.close();\n	const auto elapsed = get_wall_time_micros() - begin;\n	(void)elapsed;\n	T1_sort->finish();')]),
 ('r07-unique-lock', [], [(P3, """		std::lock_guard<std::mutex> lock(mutex);
		L_is_end = true;
		signal.notify_all();
	}
	R_sort_read.join();""", """		std::unique_lock<std::mutex> lock(mutex);
		L_is_end = true;
	}
	signal.notify_all();
	R_sort_read.join();""")]),
 ('r07-cache-helper', [], [(P2, """			if(!cache) {
				cache = R_sort->add_cache();
			}
			for(auto& entry : input) {
				cache->add(entry);
			}
		}, nullptr, std::max(num_threads / 2, 1), "phase2/add");
""", """			add_all<DS>(R_sort, input, cache);
		}, nullptr, std::max(num_threads / 2, 1), "phase2/add");
"""), (P2, 'template<typename T, typename S, typename DS>\nvoid compute_table(', """template<typename DS, typename V, typename C>
static void add_all(DS* sort, V& input, C& cache)
{
	if(!cache) {
		cache = sort->add_cache();
	}
	for(auto& entry : input) {
		cache->add(entry);
	}
}

template<typename T, typename S, typename DS>
void compute_table(""")]),
]
CASES = [c for c in CASES if c[2]]
