P3 = 'include/chia/phase3.hpp'
P4 = 'include/chia/phase4.hpp'
U = 'include/chia/util.hpp'
C = ['C12']


def m(i, f, *pairs, props=C):
    return (i, props, [(f, a, b) for a, b in pairs])


def ok(i, f, *pairs):
    return (i, [], [(f, a, b) for a, b in pairs])


SLICE = """				if(index % kEntriesPerPark == 0) {
					if(index != 0) {
						parks.emplace_back(std::move(park));
						park.index++;
					}
					park.points.clear();
					park.points.reserve(kEntriesPerPark);
				}
				park.points.push_back(entry.point);
				index++;
"""
TAIL = """	if(!park.points.empty()) {
		std::vector<park_data_t> parks{park};
		park_threads.take(parks);
		park.index++;
	}
"""
PTRS = """	fseek_set(plot_file, out.header_size - 10 * 8);
	for(size_t i = 1; i < final_pointers.size(); ++i) {
		uint8_t tmp[8] = {};
		Util::IntToEightBytes(tmp, final_pointers[i]);
		fwrite_ex(plot_file, tmp, sizeof(tmp));
	}
"""
RFB = """		*R_final_begin = L_final_begin + park.index * park_size_bytes;
"""
PW = """			for(const auto& park : input) {
				fwrite_at(plot_file, park.offset, park.buffer.data(), park.buffer.size());
			}
"""
P7 = """			if(index % kEntriesPerPark == 0 && index > 0)
			{
				park_data.offset = final_file_writer_3;
				final_file_writer_3 += P7_park_size;
				
				parks.emplace_back(std::move(park_data));
				
				park_data.array.clear();
				park_data.array.reserve(kEntriesPerPark);
			}
			park_data.array.push_back(entry.pos);
"""
P7TAIL = """    park_data.offset = final_file_writer_3;
    {
		std::vector<park_data_t> parks{park_data};
		p7_threads.take(parks);
    }
"""
C1END = """    uint8_t C1_entry_buf[8] = {};
    Bits(0, Util::ByteAlign(k)).ToBytes(C1_entry_buf);
    final_file_writer_1 +=
    		fwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);
"""
C2LOOP = """    for(auto C2_entry : C2) {
        Bits(C2_entry, k).ToBytes(C1_entry_buf);
        final_file_writer_1 +=
        		fwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);
    }
"""
C2END = """    Bits(0, Util::ByteAlign(k)).ToBytes(C1_entry_buf);
    final_file_writer_1 +=
    		fwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);
    
    std::cout << "[P4] Finished writing C2"""
PTR4 = """    for (int i = 8; i <= 10; i++) {
        Util::IntToEightBytes(table_pointer_bytes, final_table_begin_pointers[i]);
        final_file_writer_1 +=
        		fwrite_at(plot_file, final_file_writer_1, table_pointer_bytes, 8);
    }
"""
C3TAIL = """    if(!park_deltas.deltas.empty()) {
    	park_deltas.offset = begin_byte_C3 + (num_C1_entries - 1) * C3_size;
		park_threads.take(park_deltas);
    }
"""
DELTA = """					const auto big_delta = points[i + 1] - points[i];
					const auto stub = big_delta & ((1ull << (k - kStubMinusBits)) - 1);
					const auto small_delta = big_delta >> (k - kStubMinusBits);
"""
CASES = [
    # ---- phase 3
    m('c12-park-noinc', P3, (SLICE, SLICE.replace("						park.index++;\n", ""))),
    m('c12-park-2047', P3, (SLICE, SLICE.replace("index % kEntriesPerPark == 0", "index % (kEntriesPerPark - 1) == 0"))),
    m('c12-park-after-push', P3, (SLICE, SLICE.replace("				park.points.push_back(entry.point);\n", "").replace(
        "				if(index %", "				park.points.push_back(entry.point);\n				if(index %"))),
    m('c12-park-noclear', P3, (SLICE, SLICE.replace("parks.emplace_back(std::move(park));", "parks.emplace_back(park);").replace("					park.points.clear();\n", ""))),
    m('c12-park-local-index', P3, (SLICE, SLICE.replace("index % kEntriesPerPark == 0", "(index - input.second) % kEntriesPerPark == 0"))),
    m('c12-park-batch-end', P3, ("			R_num_read += input.first.size();\n			park_threads.take(parks);",
                                 "			R_num_read += input.first.size();\n			if(!park.points.empty()) { parks.push_back(park); park.points.clear(); park.index++; }\n			park_threads.take(parks);")),
    m('c12-tail-missing', P3, (TAIL, "")),
    m('c12-tail-noinc', P3, (TAIL, TAIL.replace("		park.index++;\n", ""))),
    m('c12-tail-inc-first', P3, (TAIL, TAIL.replace("		park.index++;\n", "").replace("		std::vector", "		park.index++;\n		std::vector"))),
    m('c12-tail-full-only', P3, (TAIL, TAIL.replace("!park.points.empty()", "park.points.size() == kEntriesPerPark"))),
    m('c12-tail-small-skip', P3, (TAIL, TAIL.replace("!park.points.empty()", "park.points.size() > 1"))),
    m('c12-rfb-early', P3, (TAIL, RFB.replace("		*", "	if(R_final_begin) *") + TAIL), ("	if(R_final_begin) {\n" + RFB + "	}\n", "")),
    m('c12-rfb-minus', P3, (RFB, RFB.replace("park.index *", "(park.index - 1) *"))),
    m('c12-rfb-entries', P3, (RFB, "		*R_final_begin = L_final_begin + (num_written_final / kEntriesPerPark) * park_size_bytes;\n")),
    m('c12-size-next', P3, ("CalculateParkSize(k, L_index);", "CalculateParkSize(k, L_index + 1);")),
    m('c12-size-wrongtable', P3, ("	if (table_index == 1) {", "	if (table_index <= 2) {")),
    m('c12-stubs-2048', P3, ("ByteAlign((kEntriesPerPark - 1) * (k - kStubMinusBits))", "ByteAlign(kEntriesPerPark * (k - kStubMinusBits))")),
    m('c12-lp-size', P3, ("ByteAlign(2 * k) / 8", "ByteAlign(2 * k - 1) / 8"), props=[]),
    m('c12-lp-size2', P3, ("ByteAlign(2 * k) / 8", "ByteAlign(2 * k + 1) / 8")),
    m('c12-offset32', P3, ("tmp.offset = L_final_begin + park.index * park_size_bytes;", "tmp.offset = L_final_begin + uint32_t(park.index) * park_size_bytes;")),
    m('c12-offset-plus1', P3, ("tmp.offset = L_final_begin + park.index * park_size_bytes;", "tmp.offset = L_final_begin + (park.index + 1) * park_size_bytes;")),
    m('c12-delta-wrong-stub', P3, (DELTA, DELTA.replace("(k - kStubMinusBits)) - 1)", "(k - kStubMinusBits - 1)) - 1)"))),
    m('c12-delta-shift', P3, (DELTA, DELTA.replace(">> (k - kStubMinusBits)", ">> (k - kStubMinusBits + 1)"))),
    m('c12-delta-last', P3, ("for(size_t i = 0; i < points.size() - 1; ++i) {", "for(size_t i = 0; i < points.size() - 2; ++i) {")),
    m('c12-delta-limit', P3, ("if(small_delta >= 256) {", "if(small_delta > 256) {")),
    m('c12-park-firstpoint', P3, ("					points[0],\n", "					points.back(),\n")),
    m('c12-write-trim', P3, (PW, PW.replace("park.buffer.size());", "park.buffer.size() - 1);"))),
    m('c12-write-nonempty', P3, (PW, "			const auto& park = input.front();\n			fwrite_at(plot_file, park.offset, park.buffer.data(), park.buffer.size());\n")),
    m('c12-write-append', P3, (PW, PW.replace("fwrite_at(plot_file, park.offset,", "fwrite_ex(plot_file,"))),
    m('c12-pointers-off', P3, (PTRS, PTRS.replace("10 * 8", "9 * 8"))),
    m('c12-pointers-le', P3, (PTRS, PTRS.replace("Util::IntToEightBytes(tmp, final_pointers[i]);", "memcpy(tmp, &final_pointers[i], 8);"))),
    m('c12-pointers-from0', P3, (PTRS, PTRS.replace("size_t i = 1", "size_t i = 0"))),
    m('c12-pointers-6', P3, (PTRS, PTRS.replace("i < final_pointers.size()", "i + 1 < final_pointers.size()"))),
    m('c12-pointer1', P3, ("final_pointers[1] = out.header_size;", "final_pointers[1] = out.header_size - 80;")),
    m('c12-ptr-index', P3, ("plot_file, final_pointers[L_index], &final_pointers[L_index + 1]);", "plot_file, final_pointers[L_index], &final_pointers[L_index]);")),
    m('c12-final7', P3, ("out.final_pointer_7 = final_pointers[7];", "out.final_pointer_7 = final_pointers[6];")),
    m('c12-num7', P3, ("out.num_written_7 = num_written_final_7;", "out.num_written_7 = num_written_final;")),
    m('c12-hdr-nomemo', P3, ("	num_bytes += fwrite_ex(file, memo, memo_len);\n", "")),
    m('c12-hdr-memolen', P3, ("Util::IntToTwoBytes(size_buffer, memo_len);", "Util::IntToTwoBytesLE(size_buffer, memo_len);")),
    m('c12-hdr-memolen8', P3, ("Util::IntToTwoBytes(size_buffer, memo_len);", "Util::IntToTwoBytes(size_buffer, uint8_t(memo_len));")),
    m('c12-hdr-count', P3, ("	num_bytes += fwrite_ex(file, k_buffer, 1);", "	fwrite_ex(file, k_buffer, 1);")),
    m('c12-hdr-order', P3, ("	num_bytes += fwrite_ex(file, id, kIdLen);\n", ""), ("	num_bytes += fwrite_ex(file, k_buffer, 1);\n", "	num_bytes += fwrite_ex(file, k_buffer, 1);\n	num_bytes += fwrite_ex(file, id, kIdLen);\n")),
    m('c12-hdr-ptrs', P3, ("uint8_t pointers[10 * 8]", "uint8_t pointers[11 * 8]")),
    m('c12-hdr-text', P3, ('header_text = "Proof of', 'header_text = "Proof Of')),
    m('c12-wp-nozero', P3, ("    memset(index, 0x00, park_buffer_size - (index - park_buffer));\n", "")),
    m('c12-wp-flag', P3, ("deltas_size | 0x8000", "deltas_size | 0x4000")),
    m('c12-wp-be', P3, ("        Util::IntToTwoBytesLE(index, deltas_size);", "        Util::IntToTwoBytes(index, deltas_size);")),
    m('c12-wp-R', P3, ("kRValues[table_index - 1]", "kRValues[table_index]")),
    m('c12-wp-shift', P3, ("first_line_point <<= 128 - 2 * k;", "first_line_point <<= 129 - 2 * k;")),
    m('c12-wp-stubs', P3, ("    index += stubs_size;", "    index += stubs_valid_size;")),
    m('c12-wp-overflow', P3, ("if ((uint64_t)(index - park_buffer) > park_buffer_size) {", "if ((uint64_t)(index - park_buffer) > park_buffer_size + 2) {")),
    m('c12-at-32', U, ("size_t fwrite_at(FILE* file, uint64_t offset,", "size_t fwrite_at(FILE* file, uint32_t offset,")),
    m('c12-at-ret', U, ("	fwrite_ex(file, buf, length);\n	return length;", "	return fwrite(buf, length, 1, file);")),
    # ---- phase 4
    m('c12-p7-k', P4, ("bits += ParkBits(new_pos, k + 1);", "bits += ParkBits(new_pos, k);")),
    m('c12-p7-size', P4, ("ByteAlign((k + 1) * kEntriesPerPark) / 8", "ByteAlign(k * kEntriesPerPark) / 8")),
    m('c12-p7-parks', P4, ("final_entries_written - 1) / kEntriesPerPark) + 1;", "final_entries_written) / kEntriesPerPark) + 1;")),
    m('c12-p7-off', P4, (P7, P7.replace("				park_data.offset = final_file_writer_3;\n				final_file_writer_3 += P7_park_size;\n", "				final_file_writer_3 += P7_park_size;\n				park_data.offset = final_file_writer_3;\n"))),
    m('c12-p7-noclear', P4, (P7, P7.replace("std::move(park_data)", "park_data").replace("				park_data.array.clear();\n", ""))),
    m('c12-p7-after', P4, (P7, P7.replace("			park_data.array.push_back(entry.pos);\n", "").replace("			if(index", "			park_data.array.push_back(entry.pos);\n			if(index", 1))),
    m('c12-p7-pos', P4, (P7, P7.replace("push_back(entry.pos)", "push_back(index)"))),
    m('c12-p7-tail', P4, (P7TAIL, "")),
    m('c12-p7-tail2', P4, (P7TAIL, P7TAIL.replace("    {\n", "    if(park_data.array.size() == kEntriesPerPark) {\n"))),
    m('c12-c1-begin', P4, ("const uint64_t begin_byte_C1 = final_table_begin_pointers[7] + number_of_p7_parks * P7_park_size;", "const uint64_t begin_byte_C1 = final_table_begin_pointers[7] + (number_of_p7_parks - 1) * P7_park_size;")),
    m('c12-c2-begin', P4, ("begin_byte_C1 + (total_C1_entries + 1)", "begin_byte_C1 + total_C1_entries")),
    m('c12-c3-begin', P4, ("begin_byte_C2 + (total_C2_entries + 1)", "begin_byte_C2 + total_C2_entries")),
    m('c12-c1-total', P4, ("cdiv(final_entries_written, kCheckpoint1Interval);", "final_entries_written / kCheckpoint1Interval;")),
    m('c12-c2-total', P4, ("cdiv(total_C1_entries, kCheckpoint2Interval);", "cdiv(total_C1_entries, kCheckpoint1Interval * kCheckpoint2Interval);")),
    m('c12-c1-term', P4, (C1END, C1END.replace("    final_file_writer_1 +=\n    		fwrite_at", "    		fwrite_at"))),
    m('c12-c1-k', P4, ("out.buffer.resize(Util::ByteAlign(k) / 8);", "out.buffer.resize(8);")),
    m('c12-c1-val', P4, ("Bits(entry_y, k).ToBytes(out.buffer.data());", "Bits(prev_y, k).ToBytes(out.buffer.data());")),
    m('c12-c2-interval', P4, ("if(index % (kCheckpoint1Interval * kCheckpoint2Interval) == 0) {", "if(index % (kCheckpoint1Interval * kCheckpoint1Interval + 1) == 0) {")),
    m('c12-c2-interval2', P4, ("if(index % (kCheckpoint1Interval * kCheckpoint2Interval) == 0) {", "if(num_C1_entries % (kCheckpoint2Interval + 1) == 0) {")),
    m('c12-c2-loop', P4, (C2LOOP, C2LOOP.replace("        final_file_writer_1 +=\n", ""))),
    m('c12-c2-end', P4, (C2END, C2END.replace("fwrite_at(plot_file, final_file_writer_1,", "fwrite_at(plot_file, begin_byte_C2,"))),
    m('c12-ptr4-off', P4, ("final_file_writer_1 = header_size - 8 * 3;", "final_file_writer_1 = header_size - 8 * 4;")),
    m('c12-ptr4-idx', P4, (PTR4, PTR4.replace("int i = 8; i <= 10", "int i = 9; i <= 11"))),
    m('c12-ptr4-few', P4, (PTR4, PTR4.replace("i <= 10", "i < 10"))),
    m('c12-c3-off', P4, ("					park_deltas.offset = begin_byte_C3 + (num_C1_entries - 1) * C3_size;", "					park_deltas.offset = begin_byte_C3 + num_C1_entries * C3_size;")),
    m('c12-c3-tailoff', P4, (C3TAIL, C3TAIL.replace("(num_C1_entries - 1)", "num_C1_entries"))),
    m('c12-c3-tail', P4, (C3TAIL, "")),
    m('c12-c3-tailfull', P4, (C3TAIL, C3TAIL.replace("!park_deltas.deltas.empty()", "park_deltas.deltas.size() == kCheckpoint1Interval - 1"))),
    m('c12-c3-le', P4, ("Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);", "Util::IntToTwoBytesLE(tmp.buffer.data(), num_bytes);")),
    m('c12-c3-nosize', P4, ("			Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);	// Write the size\n", "")),
    m('c12-c3-over', P4, ("if(num_bytes + 2 > C3_size) {", "if(num_bytes > C3_size) {")),
    m('c12-c3-prev', P4, ("			prev_y = entry_y;\n", ""), ("				park_deltas.deltas.push_back(entry_y - prev_y);", "				park_deltas.deltas.push_back(entry_y - prev_y);\n				prev_y = entry_y;")),
    ok('c12-c3-noclear', P4, ("				park_deltas.deltas.clear();\n", "")),
    m('c12-c3-size', P4, ("	if (k < 20) {", "	if (k < 22) {")),
    m('c12-open', P4, ('"rb+"', '"wb"')),
    m('c12-open2', P4, ('"rb+"', '"ab"')),
    m('c12-endbyte', P4, ("begin_byte_C3 + total_C1_entries * C3_size;", "begin_byte_C3 + total_C2_entries * C3_size;")),
    m('c12-args', P4, ("num_threads, input.final_pointer_7, input.num_written_7);", "num_threads, input.num_written_7, input.final_pointer_7);")),
    m('c12-hdrsize', P4, ("input.header_size, input.sort_7.get()", "input.header_size + 0 * 8 - 8, input.sort_7.get()")),
    m('c12-p7-writer-skip', P4, ("			for(const auto& write : input) {\n", "			for(const auto& write : input) {\n				if(write.buffer.empty() || write.buffer[0] == 0) continue;\n")),
    # ---- behaviour preserving
    ok('c12-ok-and', P3, (SLICE, SLICE.replace("index % kEntriesPerPark == 0", "(index & (kEntriesPerPark - 1)) == 0"))),
    ok('c12-ok-direct', P3, (SLICE, """				if(index != 0 && index % kEntriesPerPark == 0) {
					const auto next = park.index + 1;
					parks.emplace_back(std::move(park));
					park.index = next;
					park.points.clear();
				}
				park.points.push_back(entry.point);
				++index;
""")),
    ok('c12-ok-div', P3, (SLICE, """				if(index % kEntriesPerPark == 0) {
					if(index != 0) {
						parks.emplace_back(std::move(park));
					}
					park.points.clear();
					park.index = index / kEntriesPerPark;
				}
				park.points.push_back(entry.point);
				index++;
""")),
    ok('c12-ok-seek', P3, (PW, PW.replace("fwrite_at(plot_file, park.offset, park.buffer.data(), park.buffer.size());",
        "fseek_set(plot_file, park.offset);\n				fwrite_ex(plot_file, park.buffer.data(), park.buffer.size());"))),
    ok('c12-ok-idxloop', P3, (PW, """			for(size_t n = 0; n < input.size(); ++n) {
				const auto& park = input[n];
				fwrite_at(plot_file, park.offset, park.buffer.data(), park.buffer.size());
			}
""")),
    ok('c12-ok-ptrs', P3, (PTRS, """	{
		uint64_t where = out.header_size - 80;
		for(int t = 1; t <= 7; t++) {
			uint8_t tmp[8];
			Util::IntToEightBytes(tmp, final_pointers.at(t));
			where += fwrite_at(plot_file, where, tmp, 8);
		}
	}
""")),
    ok('c12-ok-tail', P3, (TAIL, """	if(park.points.size() > 0) {
		std::vector<park_data_t> last;
		last.push_back(park);
		park_threads.take(last);
		park.index += 1;
	}
""")),
    ok('c12-ok-delta', P3, (DELTA, """					const int stub_bits_len = k - kStubMinusBits;
					const auto big_delta = points[i + 1] - points[i];
					const auto small_delta = big_delta >> stub_bits_len;
					const auto stub = big_delta & ((uint64_t(1) << stub_bits_len) - 1);
""")),
    ok('c12-ok-deltapush', P3, ("std::vector<uint8_t> deltas(points.size() - 1);", "std::vector<uint8_t> deltas;\n				deltas.reserve(points.size() - 1);"),
        ("					deltas[i] = small_delta;\n", "					deltas.push_back(small_delta);\n")),
    ok('c12-ok-rfb', P3, ("	if(R_final_begin) {\n" + RFB + "	}\n", "	const uint64_t end = L_final_begin + park.index * uint64_t(park_size_bytes);\n	if(R_final_begin != nullptr) {\n		*R_final_begin = end;\n	}\n")),
    ok('c12-ok-header', P3, ("	uint8_t k_buffer[1] = {k};\n	num_bytes += fwrite_ex(file, k_buffer, 1);", "	num_bytes += fwrite_ex(file, &k, sizeof(k));")),
    ok('c12-ok-park-helper', P3, ("inline\nuint64_t compute_stage2(", """inline uint64_t park_offset(uint64_t begin, uint64_t index, uint64_t size) {
	return begin + index * size;
}

inline
uint64_t compute_stage2("""), ("tmp.offset = L_final_begin + park.index * park_size_bytes;", "tmp.offset = park_offset(L_final_begin, park.index, park_size_bytes);"),
       (RFB, "		*R_final_begin = park_offset(L_final_begin, park.index, park_size_bytes);\n")),
    ok('c12-ok-p7', P4, (P7, """			if(index > 0 && index % kEntriesPerPark == 0)
			{
				park_data_t full;
				full.offset = final_file_writer_3;
				full.array = std::move(park_data.array);
				parks.push_back(std::move(full));
				final_file_writer_3 += P7_park_size;
				park_data.array.clear();
			}
			park_data.array.push_back(entry.pos);
""")),
    ok('c12-ok-p7parks', P4, ("((final_entries_written == 0 ? 0 : final_entries_written - 1) / kEntriesPerPark) + 1;", "std::max<uint64_t>(cdiv(final_entries_written, kEntriesPerPark), 1);")),
    ok('c12-ok-ptr4', P4, (PTR4, """    for (const uint64_t begin : {begin_byte_C1, begin_byte_C2, begin_byte_C3}) {
        Util::IntToEightBytes(table_pointer_bytes, begin);
        fwrite_at(plot_file, final_file_writer_1, table_pointer_bytes, 8);
        final_file_writer_1 += 8;
    }
""")),
    ok('c12-ok-c1size', P4, ("    const uint64_t begin_byte_C2 = begin_byte_C1 + (total_C1_entries + 1) * (Util::ByteAlign(k) / 8);", "    const uint64_t c_entry = Util::ByteAlign(k) / 8;\n    const uint64_t begin_byte_C2 = begin_byte_C1 + total_C1_entries * c_entry + c_entry;")),
    ok('c12-ok-c3tail', P4, (C3TAIL, C3TAIL.replace("!park_deltas.deltas.empty()", "park_deltas.deltas.size()"))),
    ok('c12-ok-p7loop', P4, ("				for(uint64_t new_pos : park.array) {\n					bits += ParkBits(new_pos, k + 1);", "				for(const auto& new_pos : park.array) {\n					bits.AppendValue(new_pos, k + 1);")),
    ok('c12-ok-prev', P4, ("				park_deltas.deltas.push_back(entry_y - prev_y);", "				const auto delta = entry_y - prev_y;\n				park_deltas.deltas.push_back(delta);")),
    ok('c12-ok-c2', P4, (C2LOOP, """    for(size_t i = 0; i < C2.size(); ++i) {
        Bits(C2[i], k).ToBytes(C1_entry_buf);
        fwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);
        final_file_writer_1 += Util::ByteAlign(k) / 8;
    }
""")),
    ok('c12-ok-open', P4, ('"rb+"', '"r+b"')),
    ok('c12-ok-endbyte', P4, ("    final_table_begin_pointers[11] = end_byte;\n", "")),
]
