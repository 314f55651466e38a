DS, DT, CP, P3, P4, U = ('include/chia/DiskSort.hpp', 'include/chia/DiskTable.h', 'include/chia/copy.h', 'include/chia/phase3.hpp', 'include/chia/phase4.hpp', 'include/chia/util.hpp')
CASES = [
 ('c01-bucket-write-short', ['C01'], [(DS, 'if(fwrite(data, T::disk_size, count, file) != count) {', 'if(!fwrite(data, T::disk_size, count, file)) {')]),
 ('c01-bucket-write-gt', ['C01'], [(DS, 'count, file) != count) {', 'count, file) > count) {')]),
 ('c01-bucket-close-ignored', ['C01'], [(DS, 'if(fclose(tmp)) {\n\t\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t\t}', 'fclose(tmp);')]),
 ('c01-bucket-close-only-logged', ['C01'], [(DS, 'if(fclose(tmp)) {\n\t\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t\t}', 'if(fclose(tmp)) {\n\t\t\tstd::cerr << "fclose() failed" << std::endl;\n\t\t}')]),
 ('c01-open-return', ['C01'], [(DS, 'if(!file) {\n\t\tthrow', 'if(!file) {\n\t\tif(mode[0] == 119) return;\n\t\tthrow')]),
 ('c01-read-short', ['C01'], [(DT, 'param.second, local.file) != param.second) {', 'param.second, local.file) == 0) {')]),
 ('c01-seek', ['C01'], [(DT, 'if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {\n\t\t\tthrow std::runtime_error("fseek() failed with: " + std::string(std::strerror(errno)));\n\t\t}', 'fseek(local.file, param.first * T::disk_size, SEEK_SET);')]),
 ('c01-header-raw', ['C01'], [(P3, 'num_bytes += fwrite_ex(file, memo, memo_len);', 'num_bytes += fwrite(memo, 1, memo_len, file);')]),
 ('c01-fwrite_ex-returns', ['C01'], [(U, 'if(fwrite(buf, 1, length, file) != length) {\n\t\tthrow std::runtime_error("fwrite() failed");\n\t}\n\treturn length;', 'return fwrite(buf, 1, length, file);')]),
 ('c01-fwrite_at-noseekcheck', ['C01'], [(U, 'fseek_set(file, offset);', 'fseek(file, offset, SEEK_SET);')]),
 ('c01-copy-swallow', ['C01'], [(CP, 'total_bytes = copy_file(src_path, tmp_dst_path);', 'try { total_bytes = copy_file(src_path, tmp_dst_path); } catch(const std::exception&) { total_bytes = 0; }')]),
 ('c01-copy-dst-close', ['C01'], [(CP, 'if(fclose(dst)) {', 'if(fclose(dst) && !total_bytes) {')]),
 ('c01-p4-close', ['C01'], [(P4, 'if(fclose(plot_file)) {\n\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t}', 'fclose(plot_file);')]),
 ('c01-table-flush-lt', ['C01'], [(DT, 'cache.count, file_out) != cache.count) {', 'cache.count, file_out) < cache.count / 2) {')]),
 ('c01-main-retry-once', ['C01'], [('src/chia_plot.cpp', 'std::this_thread::sleep_for(std::chrono::minutes(5));', 'if(++tries > 3) break; std::this_thread::sleep_for(std::chrono::minutes(5));'), ('src/chia_plot.cpp','			const auto total_begin = get_wall_time_micros();\n			while(true) {\n				try {','			const auto total_begin = get_wall_time_micros(); int tries = 0;\n			while(true) {\n				try {')]),
 # behaviour preserving
 ('ok-helper-check', [], [(DS, 'template<typename T, typename Key>\nvoid DiskSort<T, Key>::bucket_t::open', 'static inline void io_check(bool ok, const char* what) {\n\tif(ok) {\n\t\treturn;\n\t}\n\tthrow std::runtime_error(std::string(what) + std::strerror(errno));\n}\n\ntemplate<typename T, typename Key>\nvoid DiskSort<T, Key>::bucket_t::open'),
    (DS, 'if(fwrite(data, T::disk_size, count, file) != count) {\n\t\t\tthrow std::runtime_error("fwrite() failed with: " + std::string(std::strerror(errno)));\n\t\t}', 'const size_t num = fwrite(data, T::disk_size, count, file);\n\t\tio_check(num == count, "fwrite() failed with: ");'),
    (DS, 'if(fclose(tmp)) {\n\t\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t\t}', 'io_check(fclose(tmp) == 0, "fclose() failed with: ");')]),
 ('ok-fwrite-loop', [], [(U, 'if(fwrite(buf, 1, length, file) != length) {\n\t\tthrow std::runtime_error("fwrite() failed");\n\t}\n\treturn length;', 'const size_t written = fwrite(buf, 1, length, file);\n\tif(written < length) {\n\t\tthrow std::runtime_error("fwrite() failed");\n\t}\n\treturn written;')]),
 ('ok-status-helper', [], [(U, 'inline\nsize_t fwrite_ex(', 'inline bool try_fwrite(FILE* file, const void* buf, size_t length) {\n\treturn fwrite(buf, 1, length, file) == length;\n}\n\ninline\nsize_t fwrite_ex('), (U, 'if(fwrite(buf, 1, length, file) != length) {', 'if(!try_fwrite(file, buf, length)) {')]),
 ('ok-copy-restructured', [], [(CP, '''		if(num_bytes < buffer.size() && ferror(src)) {''', '''		const bool is_last = num_bytes < buffer.size();
		if(is_last && ferror(src)) {'''), (CP, 'if(num_bytes < buffer.size()) {\n\t\t\tbreak;', 'if(is_last) {\n\t\t\tbreak;')]),
 ('ok-copy-helper', [], [(CP, 'inline\nuint64_t copy_file(', '''inline
std::runtime_error copy_error(const char* what, const std::string& path, int err) {
	return std::runtime_error(std::string(what) + path + " (" + std::string(std::strerror(err)) + ")");
}

inline
uint64_t copy_file('''), (CP, 'throw std::runtime_error("fopen() failed for " + src_path + " (" + std::string(std::strerror(errno)) + ")");', 'throw copy_error("fopen() failed for ", src_path, errno);'),
   (CP, '''	while(true) {
		const auto num_bytes''', '''	for(;;) {
		const auto num_bytes''')]),
]
