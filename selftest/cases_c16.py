P = 'include/chia/phase2.hpp'
B = 'include/chia/bitfield.hpp'
X = 'include/chia/bitfield_index.hpp'
P3 = 'include/chia/phase3.hpp'
C = ['C16']
MARK = """				uint64_t offset = 0;
				for(const auto& entry : input.first) {
					if(R_used && !R_used->get(input.second + (offset++))) {
						continue;	// drop it
					}
					L_used->set(entry.pos);
					L_used->set(uint64_t(entry.pos) + entry.off);
				}
"""
MAP = """			for(const auto& entry : input.first) {
				if(R_used && !R_used->get(input.second + (offset++))) {
					continue;	// drop it
				}
				S tmp;
				tmp.assign(entry);
				const auto pos_off = index.lookup(entry.pos, entry.off);
				tmp.pos = pos_off.first;
				tmp.off = pos_off.second;
				out.push_back(tmp);
			}
"""
CNT = """			for(auto& entry : input) {
				set_sort_key<S>{}(entry, num_written++);
			}
			R_out->take(input);
"""
LOOP = """	for(int i = 5; i >= 1; --i)
	{
		std::swap(curr_bitfield, next_bitfield);
"""
COUNT = """        int64_t ret = 0;
        while (start != end) {
            ret += Util::PopCount(*start);
            ++start;
        }
        int const tail = end_bit % 64;
        if (tail > 0) {
            uint64_t const mask = (uint64_t(1) << tail) - 1;
            ret += Util::PopCount(*end & mask);
        }
        return ret;
"""
FILT = """				if(!L_used->get(input.second + (offset++))) {
					continue;	// drop it
				}
"""
CASES = [
 ('c16-mark-one', C, [(P, '					L_used->set(uint64_t(entry.pos) + entry.off);\n', '')]),
 ('c16-mark-wrap', C, [(P, 'L_used->set(uint64_t(entry.pos) + entry.off)', 'L_used->set(uint32_t(entry.pos) + entry.off)')]),
 ('c16-mark-off', C, [(P, 'L_used->set(uint64_t(entry.pos) + entry.off)', 'L_used->set(uint64_t(entry.pos) + entry.off + 1)')]),
 ('c16-mark-offset-kept', C, [(P, MARK, MARK.replace('(offset++))) {\n						continue;	// drop it\n					}', 'offset)) {\n						continue;	// drop it\n					}\n					offset++;'))]),
 ('c16-mark-noskip', C, [(P, MARK, MARK.replace('R_used && !R_used', 'R_used && offset && !R_used'))]),
 ('c16-mark-nofilter', C, [(P, MARK, MARK.replace("""					if(R_used && !R_used->get(input.second + (offset++))) {
						continue;	// drop it
					}
""", ''))]),
 ('c16-mark-nobase', C, [(P, MARK, MARK.replace('input.second + ', ''))]),
 ('c16-mark-neg', C, [(P, MARK, MARK.replace('!R_used->get', 'R_used->get'))]),
 ('c16-mark-break', C, [(P, MARK, MARK.replace('continue;', 'break;'))]),
 ('c16-mark-cond', C, [(P, MARK, MARK.replace('					L_used->set(uint64_t', '					if(entry.off > 1) L_used->set(uint64_t'))]),
 ('c16-mark-self', C, [(P, MARK, MARK.replace('R_used', 'L_used'))]),
 ('c16-map-self', C, [(P, MAP, MAP.replace('R_used->get(input.second + (offset++))', 'R_used->get(entry.pos)'))]),
 ('c16-map-nofilter', C, [(P, MAP, MAP.replace("""				if(R_used && !R_used->get(input.second + (offset++))) {
					continue;	// drop it
				}
""", ''))]),
 ('c16-map-offset', C, [(P, MAP, MAP.replace('(offset++))) {\n					continue;	// drop it\n				}', 'offset)) {\n					continue;	// drop it\n				}\n				offset++;'))]),
 ('c16-map-raw', C, [(P, MAP, MAP.replace('tmp.pos = pos_off.first;', 'tmp.pos = entry.pos;'))]),
 ('c16-map-off', C, [(P, MAP, MAP.replace('tmp.off = pos_off.second;', 'tmp.off = entry.off;'))]),
 ('c16-map-off0', C, [(P, MAP, MAP.replace('				tmp.off = pos_off.second;\n', ''))]),
 ('c16-map-noassign', C, [(P, MAP, MAP.replace('				tmp.assign(entry);\n', ''))]),
 ('c16-map-narrow', C, [(P, MAP, MAP.replace('tmp.pos = pos_off.first', 'tmp.pos = uint32_t(pos_off.first)'))]),
 ('c16-map-narrow-off', C, [(P, MAP, MAP.replace('tmp.off = pos_off.second', 'tmp.off = uint8_t(pos_off.second)'))]),
 ('c16-map-twice', C, [(P, MAP, MAP.replace('out.push_back(tmp);', 'out.push_back(tmp);\n				if(!tmp.off) { out.push_back(tmp); }'))]),
 ('c16-map-drop', C, [(P, MAP, MAP.replace('out.push_back(tmp);', 'if(tmp.off) { out.push_back(tmp); }'))]),
 ('c16-noclear', C, [(P, '		L_used->clear();\n', '')]),
 ('c16-lateclear', C, [(P, '		L_used->clear();\n		R_input.read(&pool, num_threads_read);\n		pool.close();\n', '		R_input.read(&pool, num_threads_read);\n		L_used->clear();\n		pool.close();\n')]),
 ('c16-index-early', C, [(P, '	const bitfield_index index(*L_used);\n', ''), (P, '	{\n		const auto begin', '	const bitfield_index index(*L_used);\n	{\n		const auto begin')]),
 ('c16-index-R', C, [(P, 'const bitfield_index index(*L_used);', 'const bitfield_index index(R_used ? *R_used : *L_used);')]),
 ('c16-cnt-start1', C, [(P, 'uint64_t num_written = 0;', 'uint64_t num_written = 1;')]),
 ('c16-cnt-pre', C, [(P, CNT, CNT.replace('num_written++', '++num_written'))]),
 ('c16-cnt-local', C, [(P, CNT, '			uint64_t n = 0;\n' + CNT.replace('num_written++', 'n++') + '			num_written += n;\n')]),
 ('c16-cnt-drop', C, [(P, CNT, CNT.replace('			R_out->take(input);', '			if(input.size() > 1) { R_out->take(input); }'))]),
 ('c16-cnt-twice', C, [(P, CNT, CNT.replace('num_written++);', 'num_written++);\n				if(entry.off == 0) num_written++;'))]),
 ('c16-cnt-pool', C, [(P, 'Thread<std::vector<S>> R_count(\n		[R_out, &num_written](std::vector<S>& input) {', 'ThreadPool<std::vector<S>, size_t> R_count(\n		[R_out, &num_written](std::vector<S>& input, size_t&, size_t&) {'), (P, '"phase2/count"', 'nullptr, 2, "phase2/count"')]),
 ('c16-swap-late', C, [(P, LOOP, LOOP.replace('		std::swap(curr_bitfield, next_bitfield);\n', '		if(i < 5) std::swap(curr_bitfield, next_bitfield);\n'))]),
 ('c16-noswap', C, [(P, LOOP, LOOP.replace('		std::swap(curr_bitfield, next_bitfield);\n', ''))]),
 ('c16-out-curr', C, [(P, 'out.bitfield_1 = next_bitfield;', 'out.bitfield_1 = curr_bitfield;')]),
 ('c16-size', C, [(P, 'size_t max_table_size = 0;\n	for(const auto& table : input.table) {\n		max_table_size = std::max(max_table_size, table.num_entries);\n	}', 'size_t max_table_size = input.table[6].num_entries;')]),
 ('c16-size-min', C, [(P, 'max_table_size = std::max(max_table_size, table.num_entries);', 'max_table_size = table.num_entries;')]),
 ('c16-five', C, [(P, 'i = 5; i >= 1', 'i = 5; i > 1')]),
 ('c16-nullptr-r', C, [(P, 'next_bitfield.get(), curr_bitfield.get());', 'next_bitfield.get(), i > 1 ? curr_bitfield.get() : nullptr);')]),
 ('c16-filt-offset', C, [(P3, FILT, FILT.replace('(offset++))) {\n					continue;	// drop it\n				}', 'offset)) {\n					continue;	// drop it\n				}\n				offset++;'))]),
 ('c16-filt-none', C, [(P3, FILT, '')]),
 ('c16-filt-base', C, [(P3, FILT, FILT.replace('input.second + ', ''))]),
 ('c16-bf-size', C, [(B, 'size_((size + 63) / 64)', 'size_(size / 64)')]),
 ('c16-bf-clear', C, [(B, 'i < size_; ++i', 'i < size_ - 1; ++i')]),
 ('c16-bf-shift', C, [(B, 'buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', 'buffer_[bit / 64] |= 1 << (bit % 64);')]),
 ('c16-bf-int', C, [(B, 'bool get(int64_t const bit) const', 'bool get(int const bit) const')]),
 ('c16-bf-uint', C, [(B, 'void set(int64_t const bit)', 'void set(uint32_t const bit)')]),
 ('c16-bf-count-mask', C, [(B, '(uint64_t(1) << tail) - 1', '(uint64_t(2) << tail) - 1')]),
 ('c16-bf-count-tail', C, [(B, 'if (tail > 0) {', 'if (tail > 1) {')]),
 ('c16-bf-count-nomask', C, [(B, '*end & mask', '*end')]),
 ('c16-bf-count-32', C, [(B, 'uint64_t const mask = (uint64_t(1) << tail) - 1;', 'uint64_t const mask = (uint32_t(1) << tail) - 1;')]),
 ('c16-ix-left', C, [(X, 'idx + left)', 'idx + kIndexBucket)')]),
 ('c16-ix-le', C, [(X, 'index_.push_back(counter);\n            int64_t const left = std::min(int64_t(bitfield_.size()) - idx, kIndexBucket);\n            counter += bitfield_.count(idx, idx + left);', 'int64_t const left = std::min(int64_t(bitfield_.size()) - idx, kIndexBucket);\n            counter += bitfield_.count(idx, idx + left);\n            index_.push_back(counter);')]),
 ('c16-ix-32', C, [(X, 'uint64_t counter = 0;', 'uint32_t counter = 0;')]),
 ('c16-ix-vec32', C, [(X, 'std::vector<uint64_t> index_;', 'std::vector<uint32_t> index_;')]),
 ('c16-ix-align', C, [(X, 'pos & ~uint64_t(63)', 'pos & ~uint32_t(63)')]),
 ('c16-ix-align2', C, [(X, 'pos & ~uint64_t(63)', 'pos & ~uint64_t(127)'), (X, 'bitfield_.count(bucket * kIndexBucket, aligned_pos)', 'bitfield_.count(bucket * kIndexBucket, pos & ~uint64_t(63))')]),
 ('c16-ix-bucket', C, [(X, 'uint64_t const bucket = pos / kIndexBucket;', 'uint32_t const bucket = uint32_t(pos) / kIndexBucket;')]),
 ('c16-ix-poscount', C, [(X, 'bitfield_.count(aligned_pos, pos);', 'bitfield_.count(aligned_pos, pos + 1);')]),
 ('c16-ix-end', C, [(X, 'return { base + pos_count, offset_count - pos_count };', 'return { base + pos_count, offset_count };')]),
 # behaviour kept
 ('c16-ok-ifelse', [], [(P, MARK, """				uint64_t position = input.second;
				for(size_t i = 0; i < input.first.size(); ++i, ++position) {
					const auto& entry = input.first[i];
					const bool is_used = !R_used || R_used->get(position);
					if(is_used) {
						const uint64_t left = entry.pos;
						L_used->set(left);
						L_used->set(left + entry.off);
					}
				}
""")]),
 ('c16-ok-helper', [], [(P, 'template<typename T, typename S, typename DS>\nvoid compute_table(', 'static inline bool is_dropped(const bitfield* used, uint64_t pos) {\n	return used && !used->get(pos);\n}\n\ntemplate<typename T, typename S, typename DS>\nvoid compute_table('),
   (P, MARK, MARK.replace('R_used && !R_used->get(input.second + (offset++))', 'is_dropped(R_used, input.second + (offset++))')), (P, MAP, MAP.replace('R_used && !R_used->get(input.second + (offset++))', 'is_dropped(R_used, input.second + (offset++))'))]),
 ('c16-ok-cnt', [], [(P, CNT, '			uint64_t n = num_written;\n' + CNT.replace('num_written++', 'n++').replace('			R_out', '			num_written = n;\n			R_out'))]),
 ('c16-ok-clear', [], [(P, '		L_used->clear();\n', ''), (P, '	DiskTable<T> R_input(R_table);\n', '	L_used->clear();\n	DiskTable<T> R_input(R_table);\n')]),
 ('c16-ok-bf', [], [(B, 'buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', 'buffer_[bit >> 6].fetch_or(uint64_t(1) << (bit & 63));'), (B, 'return (buffer_[bit / 64] & (uint64_t(1) << (bit % 64))) != 0;', 'return (buffer_[bit / 64] >> (bit % 64)) & 1;')]),
 ('c16-ok-count', [], [(B, COUNT, """        int64_t ret = 0;
        for(auto const* it = start; it < end; ++it) {
            ret += Util::PopCount(it->load());
        }
        if(int const tail = end_bit % 64) {
            ret += Util::PopCount(*end << (64 - tail));
        }
        return ret;
""")]),
 ('c16-ok-index', [], [(X, 'static constexpr int64_t kIndexBucket = 1024;', 'static constexpr int64_t kIndexBucket = 512;'), (X, 'index_.reserve(bitfield_.size() / kIndexBucket);', 'index_.reserve(bitfield_.size() / kIndexBucket + 1);')]),
 ('c16-ok-lookup', [], [(X, 'uint64_t const offset_count = aligned_pos_count + bitfield_.count(aligned_pos, pos + offset);\n        uint64_t const pos_count = aligned_pos_count + bitfield_.count(aligned_pos, pos);', 'uint64_t const pos_count = bitfield_.count(bucket * kIndexBucket, pos);\n        uint64_t const offset_count = bitfield_.count(bucket * kIndexBucket, pos + offset);'), (X, '        uint64_t const aligned_pos_count = bitfield_.count(bucket * kIndexBucket, aligned_pos);\n', '')]),
 ('c16-ok-size', [], [(P, 'size_t max_table_size = 0;\n	for(const auto& table : input.table) {\n		max_table_size = std::max(max_table_size, table.num_entries);\n	}', 'size_t max_table_size = 0;\n	for(size_t i = 0; i < 7; ++i) {\n		if(input.table[i].num_entries > max_table_size) {\n			max_table_size = input.table[i].num_entries;\n		}\n	}')]),
 ('c16-ok-chain', [], [(P, LOOP, LOOP.replace('		std::swap(curr_bitfield, next_bitfield);\n', '		auto tmp_bitfield = curr_bitfield;\n		curr_bitfield = next_bitfield;\n		next_bitfield = tmp_bitfield;\n'))]),
 ('c16-ok-fresh', [], [(P, LOOP, LOOP.replace('		std::swap(curr_bitfield, next_bitfield);\n', '		curr_bitfield = next_bitfield;\n		next_bitfield = std::make_shared<bitfield>(max_table_size);\n')), (P, '		L_used->clear();\n', '')]),
]
