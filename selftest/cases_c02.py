CP, P3, P4 = 'include/chia/copy.h', 'include/chia/phase3.hpp', 'include/chia/phase4.hpp'
FIN = '''	if(rename(src_path.c_str(), dst_path.c_str())) {
		// try manual copy
		total_bytes = copy_file(src_path, tmp_dst_path);
		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
		}
		remove(src_path.c_str());
	}
'''
CASES = [
 ('c02-original', ['C02'], [(CP, FIN, '''	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
		total_bytes = copy_file(src_path, tmp_dst_path);
	}
	remove(src_path.c_str());
	rename(tmp_dst_path.c_str(), dst_path.c_str());
''')]),
 ('c02-remove-first', ['C02'], [(CP, '		if(rename(tmp_dst_path.c_str(), dst_path', '		remove(src_path.c_str());\n		if(rename(tmp_dst_path.c_str(), dst_path')]),
 ('c02-copy-direct', ['C03'], [(CP, 'total_bytes = copy_file(src_path, tmp_dst_path);', 'total_bytes = copy_file(src_path, dst_path);'), (CP, '''		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
		}
''', '')]),
 ('c02-append', ['C02'], [(CP, '"wb"', '"ab"')]),
 ('c02-partial-chunk', ['C02'], [(CP, '		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {', '		if(num_bytes < buffer.size()) {\n			break;\n		}\n		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {')]),
 ('c02-first-chunk', ['C02'], [(CP, 'if(num_bytes < buffer.size()) {\n\t\t\tbreak;', 'if(num_bytes <= buffer.size()) {\n\t\t\tbreak;')]),
 ('c02-whole-buffer', ['C02'], [(CP, 'if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {', 'if(fwrite(buffer.data(), 1, buffer.size(), dst) != buffer.size()) {')]),
 ('c02-no-ferror', ['C02'], [(CP, 'if(num_bytes < buffer.size() && ferror(src)) {', 'if(!num_bytes && ferror(src)) {')]),
 ('c02-skip-small', ['C02'], [(CP, '		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {', '		if(num_bytes > 4096 && fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {')]),
 ('c02-same', ['C02'], [(CP, 'if(src_path == dst_path) {\n\t\treturn 0;\n\t}', 'if(src_path.size() == dst_path.size()) {\n\t\treturn 0;\n\t}')]),
 ('c03-p3-name', ['C03'], [(P3, '".plot.tmp"', '".plot"')]),
 ('c03-p4-rename-early', ['C03'], [(P4, '''	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
	}
''', ''), (P4, '''	out.plot_size = compute(''', '''	out.plot_file_name = plot_dir + plot_name + ".plot";
	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
	}
	out.plot_size = compute(''')]),
 ('ok-final-inverted', [], [(CP, FIN, '''	if(rename(src_path.c_str(), dst_path.c_str()) == 0) {
		return total_bytes;
	}
	const auto copied = copy_file(src_path, tmp_dst_path);
	const int res = rename(tmp_dst_path.c_str(), dst_path.c_str());
	if(res != 0) {
		throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
	}
	total_bytes = copied;
	remove(src_path.c_str());
''')]),
 ('ok-tmp-first', [], [(CP, FIN, '''	if(rename(src_path.c_str(), dst_path.c_str())) {
		total_bytes = copy_file(src_path, tmp_dst_path);
		const bool done = !rename(tmp_dst_path.c_str(), dst_path.c_str());
		if(done) {
			remove(src_path.c_str());
		} else {
			throw std::runtime_error("rename() failed for " + dst_path);
		}
	}
''')]),
 ('ok-copy-dowhile', [], [(CP, '	while(true) {\n', '	size_t num_bytes = 0;\n	do {\n'), (CP, 'const auto num_bytes = fread', 'num_bytes = fread'), (CP, '''		if(num_bytes < buffer.size()) {
			break;
		}
	}
''', '''	} while(num_bytes == buffer.size());
''')]),
 ('ok-p4-path-var', [], [(P4, '''	out.plot_file_name = plot_dir + plot_name + ".plot";
	
''', '''	const std::string final_name = plot_dir + plot_name + ".plot";
	out.plot_file_name = final_name;
''')]),
]
