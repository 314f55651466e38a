D = 'include/chia/DiskTable.h'
C = ['C10']
W = """		if(cache.count >= cache.capacity) {
			flush();
		}
		entry.write(cache.entry_at(cache.count));
		cache.count++;
"""
CL = """			flush();
			FILE* file = file_out;
			file_out = nullptr;
			if(fclose(file)) {
"""
RD = """		const size_t num_blocks = num_entries / block_size;
		const size_t left_over = num_entries % block_size;
		
		size_t offset = 0;
		for(size_t i = 0; i < num_blocks; ++i) {
			pool.take_copy(std::make_pair(offset, block_size));
			offset += block_size;
		}
		if(left_over) {
			pool.take_copy(std::make_pair(offset, left_over));
		}
"""
CASES = [
 ('c10-full', C, [(D, 'cache.count >= cache.capacity', 'cache.count > cache.capacity')]),
 ('c10-nofull', C, [(D, W, W[W.index('		entry.write'):])]),
 ('c10-twice', C, [(D, '		cache.count++;\n', '		cache.count += 2;\n')]),
 ('c10-flush-cap', C, [(D, 'fwrite(cache.data, cache.entry_size, cache.count, file_out) != cache.count', 'fwrite(cache.data, cache.entry_size, cache.capacity, file_out) != cache.capacity')]),
 ('c10-flush-num', C, [(D, '		num_entries += cache.count;\n', '		num_entries = cache.count;\n')]),
 ('c10-flush-num2', C, [(D, '		num_entries += cache.count;\n		cache.count = 0;', '		cache.count = 0;\n		num_entries += cache.count;')]),
 ('c10-flush-noreset', C, [(D, '		num_entries += cache.count;\n		cache.count = 0;', '		num_entries += cache.count;')]),
 ('c10-flush-small', C, [(D, "		if(!file_out) {\n			throw std::logic_error", "		if(cache.count < 2) {\n			return;\n		}\n		if(!file_out) {\n			throw std::logic_error")]),
 ('c10-close-noflush', C, [(D, CL, CL.replace('			flush();\n', ''))]),
 ('c10-close-late', C, [(D, CL, CL.replace('			flush();\n', '').replace('if(fclose(file)) {', 'const int err = fclose(file);\n			file_out = file;\n			flush();\n			file_out = nullptr;\n			if(err) {'))]),
 ('c10-dtor', C, [(D, '	~DiskTable() {\n		close();', '	~DiskTable() {\n		if(file_out) fclose(file_out);')]),
 ('c10-trunc', C, [(D, '		if(!num_entries) {\n			file_out', '		if(num_entries < 2) {\n			file_out')]),
 ('c10-append', C, [(D, '"wb"', '"ab"')]),
 ('c10-left-gt1', C, [(D, 'if(left_over) {', 'if(left_over > 1) {')]),
 ('c10-left-off', C, [(D, RD, RD.replace('make_pair(offset, left_over)', 'make_pair(num_blocks, left_over)'))]),
 ('c10-noleft', C, [(D, RD, RD[:RD.index('		if(left_over)')])]),
 ('c10-adv', C, [(D, RD, RD.replace('			offset += block_size;\n', '			offset += block_size - 1;\n'))]),
 ('c10-blocks', C, [(D, 'i < num_blocks; ++i', 'i + 1 < num_blocks; ++i')]),
 ('c10-buf', C, [(D, 'new uint8_t[block_size * T::disk_size]', 'new uint8_t[block_size * (T::disk_size - 1)]')]),
 ('c10-noseek', C, [(D, 'if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {', 'if(!local.file) {')]),
 ('c10-seek', C, [(D, 'param.first * T::disk_size, SEEK_SET', 'param.first * sizeof(T), SEEK_SET')]),
 ('c10-seekcur', C, [(D, 'SEEK_SET', 'SEEK_CUR')]),
 ('c10-parse', C, [(D, 'k < param.second; ++k', 'k + 1 < param.second; ++k')]),
 ('c10-parse2', C, [(D, 'local.buffer + k * T::disk_size', 'local.buffer + (k / 2) * T::disk_size')]),
 ('c10-tag', C, [(D, 'out.second = param.first;', 'out.second = param.second;')]),
 ('c10-tag2', C, [(D, 'out.second = param.first;', 'out.second = param.first * T::disk_size;')]),
 ('c10-notag', C, [(D, '		out.second = param.first;\n', '')]),
 ('c10-resize', C, [(D, 'entries.resize(param.second);', 'entries.resize(param.second + 1);')]),
 # behaviour preserved
 ('c10-r-loop', [], [(D, RD, """		for(size_t offset = 0; offset < num_entries;) {
			const size_t count = std::min(block_size, num_entries - offset);
			pool.take_copy(std::make_pair(offset, count));
			offset += count;
		}
""")]),
 ('c10-r-loop2', [], [(D, RD, """		for(size_t offset = 0; offset < num_entries; offset += block_size) {
			pool.take_copy(std::make_pair(offset, std::min(block_size, num_entries - offset)));
		}
""")]),
 ('c10-r-mul', [], [(D, RD, """		const size_t num_blocks = num_entries / block_size;
		for(size_t i = 0; i < num_blocks; ++i) {
			pool.take_copy(std::make_pair(i * block_size, block_size));
		}
		const size_t done = num_blocks * block_size;
		if(done < num_entries) {
			pool.take_copy(std::make_pair(done, num_entries - done));
		}
""")]),
 ('c10-r-after', [], [(D, W, """		entry.write(cache.entry_at(cache.count++));
		if(cache.count == cache.capacity) {
			flush();
		}
""")]),
 ('c10-r-empty', [], [(D, "		if(fwrite(cache.data", "		if(!cache.count) {\n			return;\n		}\n		if(fwrite(cache.data")]),
 ('c10-r-push', [], [(D, """		entries.resize(param.second);
		for(size_t k = 0; k < param.second; ++k) {
			entries[k].read(local.buffer + k * T::disk_size);
		}
""", """		entries.reserve(param.second);
		const uint8_t* src = local.buffer;
		for(size_t k = 0; k < param.second; ++k) {
			T entry;
			entry.read(src);
			entries.push_back(entry);
			src += T::disk_size;
		}
""")]),
 ('c10-r-iter', [], [(D, """		for(size_t k = 0; k < param.second; ++k) {
			entries[k].read(local.buffer + k * T::disk_size);
		}
""", """		size_t k = 0;
		for(auto& entry : entries) {
			entry.read(local.buffer + k * T::disk_size);
			++k;
		}
""")]),
 ('c10-r-helper', [], [(D, "	void close() {\n		if(file_out) {", "	bool is_open() const { return file_out != nullptr; }\n	void close() {\n		if(is_open()) {")]),
 ('c10-r-early', [], [(D, "		if(file_out) {\n			flush();\n			FILE* file = file_out;\n			file_out = nullptr;\n			if(fclose(file)) {\n				throw std::runtime_error(\"fclose() failed with: \" + std::string(std::strerror(errno)));\n			}\n		}\n",
  "		if(!file_out) {\n			return;\n		}\n		flush();\n		FILE* file = file_out;\n		file_out = nullptr;\n		if(fclose(file)) {\n			throw std::runtime_error(\"fclose() failed with: \" + std::string(std::strerror(errno)));\n		}\n")]),
 ('c10-r-lambda', [], [(D, """			std::bind(&DiskTable::read_block, this,
					std::placeholders::_1, std::placeholders::_2, std::placeholders::_3),
""", """			[this](std::pair<size_t, size_t>& param, std::pair<std::vector<T>, size_t>& out, local_t& local) {
				read_block(param, out, local);
			},
""")]),
]
