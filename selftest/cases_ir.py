P1, P1H, P3 = 'include/chia/phase1.h', 'include/chia/phase1.hpp', 'include/chia/phase3.h'
BI, UT, CH = 'include/chia/bits.hpp', 'include/chia/util.hpp', 'lib/chacha8.c'
CASES = [
 # C04
 ('c04-mask', ['C04'], [(P1, 'y &= 0xFFFFFFFFF;				// 36 bit', 'y &= 0x1FFFFFFFF;')]),
 ('c04-mask34', ['C04'], [(P1, 'pos &= 0x3FFFFFFFFF;				// 38 bit', 'pos &= 0x3FFFFFFFF;')]),
 ('c04-off', ['C04'], [(P1, 'buf[5] = off >> 2;', 'buf[5] = (off >> 2) & 0x7F;')]),
 ('c04-noclear', ['C04'], [(P1, '		if(KBYTES < 5) {\n			buf[4] = 0;\n		}\n', '')]),
 ('c04-metasize', ['C04'], [(P1, 'memcpy(meta.data(), buf + 10, meta.size());', 'memcpy(meta.data(), buf + 10, meta.size() - 1);')]),
 ('c04-r-tmp', [], [(P1, '''		off = 0;
		off |= buf[4] >> 6;
		off |= uint16_t(buf[5]) << 2;
''', '''		const uint16_t lo = buf[4] >> 6;
		const uint16_t hi = uint16_t(buf[5]) * 4;
		off = lo + hi;
''')]),
 ('c04-r-loop', [], [(P1, 'memcpy(buf + 10, meta.data(), meta.size());', 'for(size_t i = 0; i < meta.size(); ++i) { buf[10 + i] = meta[i]; }')]),
 # C13
 ('c13-rounds', ['C13'], [(CH, 'for (i = 8; i > 0; i -= 2) {', 'for (i = 6; i > 0; i -= 2) {')]),
 ('c13-carry', ['C13'], [(CH, '            j13 = PLUSONE(j13);\n', '')]),
 ('c13-hi', ['C13'], [(CH, 'j13 = pos >> 32;', 'j13 = 0;')]),
 ('c13-key', ['C13'], [(P1H, 'memcpy(enc_key + 1, orig_key, 31);', 'memcpy(enc_key + 1, orig_key, 30);')]),
 ('c13-shift', ['C13'], [(P1H, '(x >> x_shift);', '(x >> (x_shift - 1));')]),
 ('c13-32bit', ['C13'], [(P1H, 'const uint64_t start = (first_x * k_) / kF1BlockSizeBits;', 'const uint64_t start = uint32_t(first_x * k_) / kF1BlockSizeBits;')]),
 ('c13-bound', ['C13'], [(P1H, 'i < (uint64_t(1) << (k - 4)) / M; ++i)', 'i + 1 < (uint64_t(1) << (k - 4)) / M; ++i)')]),
 ('c13-int', ['C13'], [(P1H, 'i < (uint64_t(1) << (k - 4)) / M; ++i)', 'i < (uint64_t(1) << (k - 5)) / M; ++i)')]),
 ('c13-skip0', ['C13'], [(P1H, '			for(auto& entry : input) {\n				cache->add(entry);\n			}\n		}, nullptr, std::max(num_threads / 2, 1), "phase1/add");', '			for(size_t i = 1; i < input.size(); ++i) {\n				cache->add(input[i]);\n			}\n		}, nullptr, std::max(num_threads / 2, 1), "phase1/add");')]),
 ('c13-dst', ['C13'], [(P1H, '16, &out[i * 16]);', '16, &out[i * 8]);')]),
 ('c13-r-idx', [], [(P1H, '			for(auto& entry : input) {\n				cache->add(entry);\n			}\n		}, nullptr, std::max(num_threads / 2, 1), "phase1/add");', '			for(size_t i = 0; i < input.size(); ++i) {\n				cache->add(input[i]);\n			}\n		}, nullptr, std::max(num_threads / 2, 1), "phase1/add");')]),
 ('c13-r-loop', [], [(P1H, '''	for(uint64_t i = 0; i < (uint64_t(1) << (k - 4)) / M; ++i) {
		pool.take_copy(i);
	}
''', '''	const uint64_t num_blocks = (uint64_t(1) << (k - 4)) / M;
	uint64_t block_idx = 0;
	while(block_idx < num_blocks) {
		pool.take_copy(block_idx);
		block_idx++;
	}
''')]),
 ('c13-r-block', [], [(P1H, '''		for(uint64_t x = first_x; x < first_x + num_entries; x++)
		{
			const uint64_t y = Util::SliceInt64FromBytes(buf, start_bit, k_);
			start_bit += k_;

			auto& out = block[x - first_x];
			out.x = x;
			out.y = (y << kExtraBits) | (x >> x_shift);
		}
''', '''		for(uint64_t i = 0; i < num_entries; i++)
		{
			const uint64_t x = first_x + i;
			const uint64_t y = Util::SliceInt64FromBytes(buf, start_bit + i * k_, k_);
			block[i].x = x;
			block[i].y = (y << kExtraBits) + (x >> x_shift);
		}
''')]),
 # C15
 ('c15-last', ['C15'], [(BI, 'if (values_.size() == 0 || last_size_ == 64) {', 'if (values_.size() == 0 || last_size_ >= 63) {')]),
 ('c15-suffix', ['C15'], [(BI, '*suffix = number & mask;', '*suffix = number & (mask >> 1);')]),
 ('c15-tobytes', ['C15'], [(BI, 'memcpy(buffer + i * 8, tmp, cdiv(last_size_, 8));', 'memcpy(buffer + i * 8, tmp, last_size_ / 8);')]),
 ('c15-pluseq', ['C15'], [(BI, 'this->AppendValue(b.values_[b.values_.size() - 1], b.last_size_);', 'this->AppendValue(b.values_[b.values_.size() - 1], 64);')]),
 ('c15-wb', ['C15'], [(BI, 'bswap_64(value >> suffix_size);', 'bswap_64(value >> (suffix_size - 1));')]),
 ('c15-16', ['C15'], [(UT, 'r = bswap_64((uint64_t)input);', 'r = bswap_64((uint32_t)input);')]),
 ('c15-slice', ['C15'], [(BI, 'if (end_index % 64) {\n                uint8_t bucket_size =\n                    ((int)end_bucket', 'if (end_index % 64 > 1) {\n                uint8_t bucket_size =\n                    ((int)end_bucket')]),
 ('c15-r-or', [], [(BI, 'values_[values_.size() - 1] = (values_[values_.size() - 1] << length) + value;', 'values_[values_.size() - 1] = (values_[values_.size() - 1] << length) | value;')]),
 ('c15-r-helper', [], [(BI, '''        uint8_t suffix_size = num_bits - prefix_size;
        uint64_t mask = (static_cast<uint64_t>(1)) << suffix_size;
        mask--;
        *suffix = number & mask;
        *prefix = number >> suffix_size;
''', '''        const int suffix_size = int(num_bits) - int(prefix_size);
        *prefix = number >> suffix_size;
        *suffix = number - (*prefix << suffix_size);
''')]),
 ('c15-r-tobytes', [], [(BI, '''        Util::IntToEightBytes(tmp, values_[i] << (64 - last_size_));
        memcpy(buffer + i * 8, tmp, cdiv(last_size_, 8));
''', '''        const uint64_t last = values_[i] << (64 - last_size_);
        for (int j = 0; j < (last_size_ + 7) / 8; j++) {
            buffer[i * 8 + j] = uint8_t(last >> (56 - 8 * j));
        }
        (void)tmp;
''')]),

 # C14
 ('c14-hashlen', ['C14'], [(P1H, 'blake3_hasher_update(&hasher, input, cdiv(input_bits, 8));', 'blake3_hasher_update(&hasher, input, input_bits / 8);')]),
 ('c14-swap', ['C14'], [(P1H, '''        	input_bits = append_bits(input, L_meta, input_bits, meta_bits);
        	input_bits = append_bits(input, R_meta, input_bits, meta_bits);
''', '''        	input_bits = append_bits(input, R_meta, input_bits, meta_bits);
        	input_bits = append_bits(input, L_meta, input_bits, meta_bits);
''')]),
 ('c14-y7', ['C14'], [(P1H, '(64 - (k_ + (table_index_ < 7 ? kExtraBits : 0)))', '(64 - (k_ + (table_index_ < 6 ? kExtraBits : 0)))')]),
 ('c14-slice', ['C14'], [(P1H, 'k_ + kExtraBits, kVectorLens[table_index_ + 1] * k_)', 'k_ + kExtraBits, kVectorLens[table_index_ + 1] * k_ - 1)')]),
 ('c14-Ry', ['C14'], [(P1H, 'write_bits(input, L.y, input_bits, k_ + kExtraBits);\n        	input_bits = append_bits(input, L_meta', 'write_bits(input, R.y, input_bits, k_ + kExtraBits);\n        	input_bits = append_bits(input, L_meta')]),
 ('c14-arg', ['C14'], [(P1H, 'Fx.evaluate(match.left, match.right, entry);', 'Fx.evaluate(match.right, match.left, entry);')]),
 ('c14-idx', ['C14'], [(P1H, '			6, k, num_threads, &sort_5, &sort_6, &tmp_5);', '			5, k, num_threads, &sort_5, &sort_6, &tmp_5);')]),
 ('c14-veclen', ['C14'], [('include/chia/chia.h', '{0, 0, 1, 2, 4, 4, 3, 2}', '{0, 0, 1, 2, 4, 4, 2, 2}')]),
 ('c14-r-merge', [], [(P1H, '''        if (table_index_ < 4) {
        	C_bits = append_bits(C, L_meta, C_bits, meta_bits);
        	C_bits = append_bits(C, R_meta, C_bits, meta_bits);
        	input_bits = write_bits(input, L.y, input_bits, k_ + kExtraBits);
        	input_bits = append_bits(input, C, input_bits, C_bits);
        } else {
        	input_bits = write_bits(input, L.y, input_bits, k_ + kExtraBits);
        	input_bits = append_bits(input, L_meta, input_bits, meta_bits);
        	input_bits = append_bits(input, R_meta, input_bits, meta_bits);
        }
''', '''        input_bits = write_bits(input, L.y, input_bits, k_ + kExtraBits);
        for (const uint64_t* meta : {L_meta, R_meta}) {
        	input_bits = append_bits(input, meta, input_bits, meta_bits);
        	if (table_index_ < 4) {
        		C_bits = append_bits(C, meta, C_bits, meta_bits);
        	}
        }
''')]),
 ('c14-r-helper', [], [(P1H, '				Fx.evaluate(match.left, match.right, entry);\n', '				const T& lhs = match.left;\n				const T& rhs = match.right;\n				Fx.evaluate(lhs, rhs, entry);\n')]),
]
CASES = [c for c in CASES if c[2][0][1]]
