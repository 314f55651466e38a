D = 'include/chia/DiskSort.hpp'
DH = 'include/chia/DiskSort.h'
ADD = """	if(buffer.count >= buffer.capacity) {
		disk->write(index, buffer.data, buffer.count);
		buffer.count = 0;
	}
	entry.write(buffer.entry_at(buffer.count));
	buffer.count++;
"""
RANGE = """	if(index >= buckets.size()) {
		throw std::logic_error("bucket index out of range: "
				+ std::to_string(index) + " >= " + std::to_string(buckets.size()));
	}
"""
EMIT = """	for(auto& entry : sorted) {
		const auto count = entry.second.size();
		out.emplace_back(std::move(entry.second), offset);
		offset += count;
	}
"""
LOOP = """	for(size_t i = 0; i < buckets.size(); ++i) {
		read_pool.take_copy(std::make_pair(i, offset));
		offset += buckets[i].num_entries;
	}
"""
FL = """	for(size_t index = 0; index < buckets.size(); ++index) {
		auto& buffer = buckets[index];
		if(buffer.count) {
			disk->write(index, buffer.data, buffer.count);
			buffer.count = 0;
		}
	}
"""
MOVE = """	std::map<size_t, std::vector<T>> sorted;
	for(auto& entry : table) {
		sorted.emplace(entry.first, std::move(entry.second));
	}
	table.clear();
"""
C = ['C09']
CASES = [
 ('c09-cap', C, [(D, 'if(buffer.count >= buffer.capacity) {', 'if(buffer.count > buffer.capacity) {')]),
 ('c09-noreset', C, [(D, ADD, ADD.replace('		buffer.count = 0;\n', ''))]),
 ('c09-drop1', C, [(D, ADD, ADD.replace('disk->write(index, buffer.data, buffer.count);', 'disk->write(index, buffer.data, buffer.count - 1);'))]),
 ('c09-reset1', C, [(D, ADD, ADD.replace('buffer.count = 0;', 'buffer.count = 1;'))]),
 ('c09-wrongbucket', C, [(D, ADD, ADD.replace('disk->write(index,', 'disk->write(index / 2,'))]),
 ('c09-norange', C, [(D, RANGE, '')]),
 ('c09-mask', C, [(D, 'const size_t index = Key{}(entry) >> key_shift;', 'const size_t index = (Key{}(entry) >> key_shift) & (buckets.size() - 1);')]),
 ('c09-clamp', C, [(D, RANGE, '	if(index >= buckets.size()) {\n		return;\n	}\n')]),
 ('c09-flush-last', C, [(D, FL, FL.replace('index < buckets.size()', 'index + 1 < buckets.size()'))]),
 ('c09-flush-gt1', C, [(D, FL, FL.replace('if(buffer.count) {', 'if(buffer.count > 1) {'))]),
 ('c09-flush-noreset', C, [(D, FL, FL.replace('			buffer.count = 0;\n', ''))]),
 ('c09-flush-break', C, [(D, FL, FL.replace('			buffer.count = 0;\n		}\n', '			buffer.count = 0;\n		} else {\n			break;\n		}\n'))]),
 ('c09-dtor', C, [(DH, '~WriteCache() { flush(); }', '~WriteCache() {}')]),
 ('c09-finish-noflush', C, [(D, '	cache.flush();\n', '')]),
 ('c09-finish-order', C, [(D, '	cache.flush();\n	for(auto& bucket : buckets) {\n		bucket.close();\n	}\n', '	for(auto& bucket : buckets) {\n		bucket.close();\n	}\n	cache.flush();\n')]),
 ('c09-finish-noclose', C, [(D, '	for(auto& bucket : buckets) {\n		bucket.close();\n	}\n	is_finished', '	is_finished')]),
 ('c09-count', C, [(D, '		num_entries += count;\n', '		num_entries++;\n')]),
 ('c09-nocount', C, [(D, '		num_entries += count;\n', '')]),
 ('c09-append', C, [(D, 'bucket.open("wb");', 'bucket.open("ab");')]),
 ('c09-samefile', C, [(D, 'std::to_string(i) + ".tmp"', 'std::to_string(i >> 1) + ".tmp"')]),
 ('c09-read-from1', C, [(D, LOOP, LOOP.replace('i = 0', 'i = 1'))]),
 ('c09-read-last', C, [(D, LOOP, LOOP.replace('i < buckets.size()', 'i < buckets.size() - 1'))]),
 ('c09-read-rank', C, [(D, LOOP, LOOP.replace('		read_pool.take_copy(std::make_pair(i, offset));\n		offset += buckets[i].num_entries;\n', '		offset += buckets[i].num_entries;\n		read_pool.take_copy(std::make_pair(i, offset));\n'))]),
 ('c09-read-skip', C, [(D, LOOP, LOOP.replace('		read_pool.take_copy(std', '		if(buckets[i].num_entries > 1)\n		read_pool.take_copy(std'))]),
 ('c09-sort-desc', C, [(D, 'return Key{}(lhs) < Key{}(rhs);', 'return Key{}(lhs) > Key{}(rhs);')]),
 ('c09-sort-le', C, [(D, 'return Key{}(lhs) < Key{}(rhs);', 'return Key{}(lhs) <= Key{}(rhs);')]),
 ('c09-sort-part', C, [(D, 'std::sort(input.first.begin(), input.first.end(),', 'std::sort(input.first.begin() + 1, input.first.end(),')]),
 ('c09-sort-cond', C, [(D, '			std::sort(input.first.begin(),', '			if(input.first.size() > 16)\n			std::sort(input.first.begin(),')]),
 ('c09-sort-rank', C, [(D, '			out = std::move(input);', '			out.first = std::move(input.first);\n			out.second = 0;')]),
 ('c09-fwd-skip', C, [(D, '			for(auto& block : input) {\n				sort_pool.take(block);\n			}', '			for(size_t i = 1; i < input.size(); ++i) {\n				sort_pool.take(input[i]);\n			}')]),
 ('c09-r-chunk', [], [(D, 'i += num_entries;', 'i += buffer.capacity;')]),
 ('c09-chunk2', C, [(D, 'k < num_entries; ++k', 'k + 1 < num_entries; ++k')]),
 ('c09-chunk3', C, [(D, 'for(size_t i = 0; i < bucket.num_entries;)', 'for(size_t i = 0; i + 1 < bucket.num_entries;)')]),
 ('c09-entryat', C, [(D, 'entry.read(buffer.entry_at(k));', 'entry.read(buffer.entry_at(num_entries - 1 - k + k / 2));')]),
 ('c09-collide', C, [(D, 'sorted.emplace(entry.first, std::move(entry.second));', 'sorted.emplace(entry.first >> 1, std::move(entry.second));')]),
 ('c09-unordered', C, [(D, 'std::map<size_t, std::vector<T>> sorted;', 'std::unordered_map<size_t, std::vector<T>> sorted;')]),
 ('c09-rank', C, [(D, 'uint64_t offset = index.second;', 'uint64_t offset = 0;')]),
 ('c09-rank2', C, [(D, EMIT, EMIT.replace('offset += count;', 'offset++;'))]),
 ('c09-rank3', C, [(D, EMIT, EMIT.replace('		out.emplace_back(std::move(entry.second), offset);\n		offset += count;\n', '		offset += count;\n		out.emplace_back(std::move(entry.second), offset);\n'))]),
 ('c09-emit-big', C, [(D, EMIT, EMIT.replace('		out.emplace', '		if(count > 1) out.emplace'))]),
 ('c09-cacheshift', C, [(D, 'std::make_shared<WriteCache>(this, bucket_key_shift, buckets.size());', 'std::make_shared<WriteCache>(this, bucket_key_shift - 1, buckets.size());')]),
 ('c09-shift', C, [(D, 'bucket_key_shift(key_size - log_num_buckets),', 'bucket_key_shift(key_size - log_num_buckets + 1),'), (D, 'cache(this, key_size - log_num_buckets, 1', 'cache(this, key_size - log_num_buckets + 1, 1')]),
 ('c09-modblock', C, [(D, 'auto& block = table[Key{}(entry) >> key_shift];', 'auto& block = table[Key{}(entry) % (size_t(1) << log_num_buckets)];')]),
 # behaviour kept
 ('c09-r-helper', [], [(D, ADD, """	if(buffer.count >= buffer.capacity) {
		flush_bucket(index);
	}
	const size_t pos = buffer.count++;
	entry.write(buffer.entry_at(pos));
"""), (D, FL, """	size_t index = 0;
	for(auto& buffer : buckets) {
		if(buffer.count > 0) {
			flush_bucket(index);
		}
		index++;
	}
"""), (DH, '	private:\n		DiskSort* disk', '	private:\n		void flush_bucket(size_t index) {\n			auto& buffer = buckets[index];\n			disk->write(index, buffer.data, buffer.count);\n			buffer.count = 0;\n		}\n		DiskSort* disk')]),
 ('c09-r-after', [], [(D, ADD, """	entry.write(buffer.entry_at(buffer.count));
	if(++buffer.count == buffer.capacity) {
		disk->write(index, buffer.data, buffer.count);
		buffer.count = 0;
	}
""")]),
 ('c09-r-map', [], [(D, 'std::unordered_map<size_t, std::vector<T>> table;\n	table.reserve(size_t(1) << log_num_buckets);\n', 'std::map<size_t, std::vector<T>> table;\n'), (D, MOVE, ''), (D, 'out.reserve(sorted.size());', 'out.reserve(table.size());'), (D, EMIT, EMIT.replace('sorted', 'table'))]),
 ('c09-r-while', [], [(D, 'for(size_t i = 0; i < bucket.num_entries;)\n	{', 'size_t left = bucket.num_entries;\n	while(left > 0)\n	{'), (D, 'std::min(buffer.capacity, bucket.num_entries - i);', 'std::min(buffer.capacity, left);'), (D, 'i += num_entries;', 'left -= num_entries;')]),
 ('c09-r-emit', [], [(D, EMIT, """	for(auto iter = sorted.begin(); iter != sorted.end(); ++iter) {
		auto& block = iter->second;
		const size_t num = block.size();
		out.push_back(std::make_pair(std::move(block), size_t(offset)));
		offset = offset + num;
	}
""")]),
 ('c09-r-cmp', [], [(D, 'return Key{}(lhs) < Key{}(rhs);', 'const auto a = Key{}(lhs);\n					const auto b = Key{}(rhs);\n					return b > a;')]),
 ('c09-r-loop', [], [(D, LOOP, """	size_t i = 0;
	for(const auto& bucket : buckets) {
		const size_t first = offset;
		offset += bucket.num_entries;
		read_pool.take_copy(std::pair<size_t, size_t>(i, first));
		++i;
	}
""")]),
 ('c09-r-swap', [], [(D, '			out = std::move(input);', '			std::swap(out, input);')]),
 ('c09-r-out2', [], [(D, '			out = std::move(input);', '			out.first = std::move(input.first);\n			out.second = input.second;')]),
 ('c09-nolock', C, [(D, '	std::lock_guard<std::mutex> lock(mutex);\n', '')]),
 ('c09-buf', C, [('include/chia/buffer.h', 'new uint8_t[capacity * entry_size]', 'new uint8_t[capacity * (entry_size - 1)]')]),
 ('c09-r-buf', [], [('include/chia/buffer.h', 'new uint8_t[capacity * entry_size]', 'new uint8_t[(capacity + 1) * entry_size]')]),
]
