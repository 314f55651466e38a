D, P1, P2, P3, DH = ['include/chia/' + x for x in ('DiskSort.hpp', 'phase1.hpp', 'phase2.hpp', 'phase3.hpp', 'DiskSort.h')]


def c(i, *eds):
    return (i, ['C11'], list(eds))


def ok(i, *eds):
    return (i, [], list(eds))


CLOSE = '''	for(auto& bucket : buckets) {
		bucket.close();
		if(!keep_files) {
			bucket.remove();
		}
	}
'''
CASES = [
    c('c11-close-no-remove', (D, CLOSE, '	for(auto& bucket : buckets) {\n		bucket.close();\n	}\n')),
    c('c11-close-empty-only', (D, CLOSE, CLOSE.replace('if(!keep_files)', 'if(!keep_files && bucket.num_entries)'))),
    c('c11-close-always', (D, CLOSE, CLOSE.replace('if(!keep_files)', 'if(!keep_files || is_finished)'))),
    c('c11-close-open-only', (D, CLOSE, CLOSE.replace('		bucket.close();\n		if(!keep_files)', '		if(!bucket.file) {\n			continue;\n		}\n		bucket.close();\n		if(!keep_files)'))),
    c('c11-dtor-none', (DH, '	~DiskSort() {\n		close();\n	}', '	~DiskSort() {\n	}')),
    c('c11-dtor-finish', (DH, '	~DiskSort() {\n		close();\n	}', '	~DiskSort() {\n		for(auto& b : buckets) {\n			b.close();\n		}\n	}')),
    c('c11-read-always', (D, '	if(!keep_files) {\n		bucket.remove();\n	}\n	\n', '	bucket.remove();\n	\n')),
    c('c11-ctor-keep', (D, 'keep_files(read_only)', 'keep_files(false)')),
    c('c11-ctor-keep-true', (D, 'keep_files(read_only)', 'keep_files(true)')),
    c('c11-ctor-open', (D, 'bucket.num_entries = get_file_size(bucket.file_name.c_str()) / T::disk_size;\n		} else {\n			bucket.open("wb");\n		}', 'bucket.num_entries = get_file_size(bucket.file_name.c_str()) / T::disk_size;\n		}\n		bucket.open("wb");')),
    c('c11-p2-early', (P2, '	table_7.close();\n	remove(input.table[6].file_name);\n	\n', '	table_7.close();\n	for(int i = 1; i < 7; ++i) {\n		remove(input.table[i].file_name);\n	}\n	\n')),
    c('c11-p2-all', (P2, 'i >= 1; --i)\n	{\n		std::swap', 'i >= 1; --i)\n	{\n		if(i == 1) {\n			remove(input.table[0].file_name);\n		}\n		std::swap')),
    c('c11-p2-off', (P2, '		remove(input.table[i].file_name);', '		remove(input.table[i - 1].file_name);')),
    c('c11-p2-leak', (P2, '		remove(input.table[i].file_name);', '		if(i > 1) {\n			remove(input.table[i].file_name);\n		}')),
    c('c11-p2-leak7', (P2, '	remove(input.table[6].file_name);\n', '')),
    c('c11-p2-name', (P2, '".p2.";\n	const std::string prefix_2 = tmp_dir_2 + plot_name + ".p2.";', '".p2.";\n	const std::string prefix_2 = tmp_dir_2 + plot_name + ".p1.";')),
    c('c11-p2-same-sort', (P2, '"t" + std::to_string(i + 1)', '"t" + std::to_string((i + 1) / 2)')),
    c('c11-p3-early', (P3, '	remove(input.table_1.file_name);\n', ''), (P3, '	auto R_sort_lp = std::make_shared<DiskSortLP>(', '	remove(input.table_1.file_name);\n	\n	auto R_sort_lp = std::make_shared<DiskSortLP>(')),
    c('c11-p3-leak7', (P3, '	remove(input.table_7.file_name);\n', '')),
    c('c11-p3-1twice', (P3, '	remove(input.table_7.file_name);\n', '	remove(input.table_1.file_name);\n')),
    c('c11-p3-same', (P3, 'prefix_2 + "p3s2." + R_t', 'prefix_2 + "p3s1." + R_t')),
    c('c11-p3-p2name', (P3, 'prefix_2 + "p3s1." + R_t', 'prefix_2 + "p2." + R_t')),
    c('c11-p3-const', (P3, 'prefix_2 + "p3s2." + R_t', 'prefix_2 + "p3s2.t2"')),
    c('c11-p1-same', (P1, 'prefix + "table4.tmp"', 'prefix + "table3.tmp"')),
    ok('c11-ok-index-loop', (D, CLOSE, '	for(size_t i = 0; i < buckets.size(); ++i) {\n		auto& b = buckets[i];\n		b.close();\n		if(keep_files) {\n			continue;\n		}\n		b.remove();\n	}\n')),
    ok('c11-ok-two-loops', (D, CLOSE, '	for(auto& bucket : buckets) {\n		bucket.close();\n	}\n	if(!keep_files) {\n		for(auto& bucket : buckets) {\n			bucket.remove();\n		}\n	}\n')),
    ok('c11-ok-read-later', (D, '	if(!keep_files) {\n		bucket.remove();\n	}\n	\n', '	bucket.close();\n	\n')),
    ok('c11-ok-p2-helper', (P2, '		remove(input.table[i].file_name);', '		const auto& done = input.table[i];\n		remove(done.file_name);')),
    ok('c11-ok-p2-late', (P2, '	remove(input.table[6].file_name);\n', ''), (P2, '	out.params = input.params;\n', '	remove(input.table[6].file_name);\n	out.params = input.params;\n')),
    ok('c11-ok-p3-late', (P3, '	remove(input.table_1.file_name);\n', ''), (P3, '	DiskTable<phase2::entry_7> R_table_7(input.table_7);\n', '	remove(input.table_1.file_name);\n	DiskTable<phase2::entry_7> R_table_7(input.table_7);\n')),
    ok('c11-ok-names', (P3, 'prefix_2 + "p3s2." + R_t', 'tmp_dir_2 + plot_name + ".p3s2.t" + std::to_string(L_index + 1)')),
    ok('c11-ok-p1-dir', (P1, 'DiskTable<tmp_entry_x> tmp_4(prefix + "table4.tmp")', 'DiskTable<tmp_entry_x> tmp_4(prefix_2 + "table4.tmp")')),
    ok('c11-ok-flag', (D, CLOSE, CLOSE.replace('if(!keep_files)', 'if(!keep_files && !bucket.gone)')), (D, '		bucket.remove();\n	}\n	\n', '		bucket.remove();\n		bucket.gone = true;\n	}\n	\n'),
       (DH, '		void remove();', '		bool gone = false;\n		void remove();')),
]
