M = 'src/chia_plot.cpp'


def c(i, *eds):
    return (i, ['C19'], [(M,) + e for e in eds])


def ok(i, *eds):
    return (i, [], [(M,) + e for e in eds])


MEMO1 = '''	if(have_puzzle) {
		params.memo.insert(params.memo.end(), puzzle_hash_bytes.begin(), puzzle_hash_bytes.end());
	} else {
		params.memo.insert(params.memo.end(), pool_key_bytes.begin(), pool_key_bytes.end());
	}
'''
MEMO2 = '''	params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());
'''
MEMO3 = '''	{
		const auto bytes = master_sk.Serialize();
		params.memo.insert(params.memo.end(), bytes.begin(), bytes.end());
	}
'''
TAP = '''			vector<uint8_t> bytes = (local_key + farmer_key).Serialize();
			{
				const auto more_bytes = local_key.Serialize();
				bytes.insert(bytes.end(), more_bytes.begin(), more_bytes.end());
			}
			{
				const auto more_bytes = farmer_key.Serialize();
				bytes.insert(bytes.end(), more_bytes.begin(), more_bytes.end());
			}
'''
CASES = [
    c('c19-memo-order', (MEMO1 + MEMO2, MEMO2 + MEMO1)),
    c('c19-memo-begin', (MEMO2, MEMO2.replace('memo.end()', 'memo.begin()', 1))),
    c('c19-memo-nofarmer', (MEMO2, '')),
    c('c19-memo-local', ('	phase1::input_t params;\n', '	phase1::input_t params;\n	const bls::PrivateKey child_sk = MPL.DeriveChildSk(master_sk, 12381);\n'), ('const auto bytes = master_sk.Serialize();', 'const auto bytes = child_sk.Serialize();')),
    c('c19-memo-pool', ('puzzle_hash_bytes.begin(), puzzle_hash_bytes.end()', 'pool_key_bytes.begin(), pool_key_bytes.end()')),
    c('c19-path', ('{12381, port, 3, 0}', '{12381, 8444, 3, 0}')),
    c('c19-path2', ('{12381, port, 3, 0}', '{12381, port, 0, 3}')),
    c('c19-path3', ('{12381, port, 3, 0}', '{12381, port, 2, 0}')),
    c('c19-unhard', ('MPL.DeriveChildSk(local_sk, i)', 'MPL.DeriveChildSkUnhardened(local_sk, i)')),
    c('c19-master', ('local_sk = MPL.DeriveChildSk(local_sk, i)', 'local_sk = MPL.DeriveChildSk(master_sk, i)')),
    c('c19-tap-order', ('const auto more_bytes = local_key.Serialize();', 'const auto more_bytes = farmer_key.Serialize();')),
    c('c19-tap-sum', ('vector<uint8_t> bytes = (local_key + farmer_key).Serialize();', 'vector<uint8_t> bytes = local_key.Serialize();')),
    c('c19-tap-missing', ('plot_key = local_key + farmer_key + taproot_sk.GetG1Element();', 'plot_key = local_key + farmer_key;')),
    c('c19-tap-hash', ('const auto taproot_sk = MPL.KeyGen(hash);', 'const auto taproot_sk = MPL.KeyGen(bytes);')),
    c('c19-id-pool', ('vector<uint8_t> bytes = have_puzzle ? puzzle_hash_bytes : pool_key.Serialize();', 'vector<uint8_t> bytes = pool_key.Serialize();')),
    c('c19-id-farmer', ('const auto plot_bytes = plot_key.Serialize();', 'const auto plot_bytes = local_key.Serialize();')),
    c('c19-uniq-port', ('const uint32_t port_u32 = port;', 'const uint32_t port_u32 = k;')),
    c('c19-uniq-off', ('::memcpy(tmp.data() + 32, &port_u32, 4);', '::memcpy(tmp.data() + 28, &port_u32, 4);')),
    c('c19-uniq-drop', ('			bytes = tmp;\n', '')),
    c('c19-uniq-always', ('		if(make_unique) {', '		if(make_unique || have_puzzle) {')),
    c('c19-uniq-solo', ('		if(make_unique) {', '		if(make_unique && !have_puzzle) {')),
    c('c19-id-given', ('	if (!plot_id.empty()) {', '	if (!plot_id.empty() && !make_unique) {')),
    c('c19-buckets', ('phase2::compute(out_1, out_2, num_threads, log_num_buckets_3,', 'phase2::compute(out_1, out_2, num_threads, log_num_buckets,')),
    c('c19-dirs', ('phase3::compute(out_2, out_3, num_threads, log_num_buckets_3, plot_name, tmp_dir, tmp_dir_2, plot_dir)', 'phase3::compute(out_2, out_3, num_threads, log_num_buckets_3, plot_name, tmp_dir_2, tmp_dir, plot_dir)')),
    c('c19-plotdir', ('phase3::compute(out_2, out_3, num_threads, log_num_buckets_3, plot_name, tmp_dir, tmp_dir_2, plot_dir)', 'phase3::compute(out_2, out_3, num_threads, log_num_buckets_3, plot_name, tmp_dir, tmp_dir_2, tmp_dir)')),
    c('c19-seed', ('	randombytes_buf(seed.data(), seed.size());\n', '	randombytes_buf(seed.data(), 16);\n')),
    c('c19-noseed', ('	randombytes_buf(seed.data(), seed.size());\n', '')),

    ok('c19-ok-memo-var', (MEMO1 + MEMO2, '	const auto& first = have_puzzle ? puzzle_hash_bytes : pool_key_bytes;\n	params.memo.insert(params.memo.end(), first.begin(), first.end());\n' + MEMO2)),
    ok('c19-ok-memo-copy', (MEMO1, '	if(have_puzzle) {\n		params.memo = puzzle_hash_bytes;\n	} else {\n		params.memo = pool_key_bytes;\n	}\n')),
    ok('c19-ok-append', ('inline\nphase4::output_t create_plot(', 'static void append(std::vector<uint8_t>& dst, const std::vector<uint8_t>& src)\n{\n	dst.insert(dst.end(), src.begin(), src.end());\n}\n\ninline\nphase4::output_t create_plot('),
        (TAP, '			vector<uint8_t> bytes = (local_key + farmer_key).Serialize();\n			append(bytes, local_key.Serialize());\n			append(bytes, farmer_key.Serialize());\n'),
        (MEMO3, '	append(params.memo, master_sk.Serialize());\n')),
    ok('c19-ok-swapsum', ('plot_key = local_key + farmer_key + taproot_sk.GetG1Element();', 'plot_key = taproot_sk.GetG1Element() + local_key + farmer_key;')),
    ok('c19-ok-fkbytes', ('const auto more_bytes = farmer_key.Serialize();', 'const auto more_bytes = farmer_key_bytes;')),
    ok('c19-ok-unroll', ('''		for(uint32_t i : {12381, port, 3, 0}) {
			local_sk = MPL.DeriveChildSk(local_sk, i);
		}
''', '''		local_sk = MPL.DeriveChildSk(local_sk, 12381);
		local_sk = MPL.DeriveChildSk(local_sk, port);
		local_sk = MPL.DeriveChildSk(local_sk, 3);
		local_sk = MPL.DeriveChildSk(local_sk, 0);
''')),
    ok('c19-ok-path-vec', ('for(uint32_t i : {12381, port, 3, 0}) {', 'const std::vector<uint32_t> path = {12381, uint32_t(port), 3, 0};\n		for(const auto i : path) {')),
    ok('c19-ok-path-arr', ('for(uint32_t i : {12381, port, 3, 0}) {', 'const uint32_t path[] = {12381, uint32_t(port), 3, 0};\n		for(size_t j = 0; j < 4; ++j) {\n			const auto i = path[j];')),
    ok('c19-ok-derive-fn', ('inline\nphase4::output_t create_plot(', 'static bls::PrivateKey derive_local(bls::AugSchemeMPL& MPL, const bls::PrivateKey& master_sk, const int port)\n{\n	bls::PrivateKey sk = master_sk;\n	for(uint32_t i : {12381, port, 3, 0}) {\n		sk = MPL.DeriveChildSk(sk, i);\n	}\n	return sk;\n}\n\ninline\nphase4::output_t create_plot('),
        ('''		bls::PrivateKey local_sk = master_sk;
		for(uint32_t i : {12381, port, 3, 0}) {
			local_sk = MPL.DeriveChildSk(local_sk, i);
		}
''', '		const bls::PrivateKey local_sk = derive_local(MPL, master_sk, port);\n')),
    ok('c19-ok-uniq', ('''			std::vector<uint8_t> tmp(32 + 4);
			bls::Util::Hash256(tmp.data(), bytes.data(), bytes.size());
			const uint32_t port_u32 = port;
			::memcpy(tmp.data() + 32, &port_u32, 4);
			bytes = tmp;
''', '''			const uint32_t port_u32 = port;
			std::vector<uint8_t> tmp(36);
			::memcpy(tmp.data() + 32, &port_u32, sizeof(port_u32));
			bls::Util::Hash256(tmp.data(), bytes.data(), bytes.size());
			bytes = std::move(tmp);
''')),
    ok('c19-ok-memo-early', ('	params.plot_name = plot_name;\n', ''), ('	phase1::output_t out_1;\n', '	params.plot_name = plot_name;\n	phase1::output_t out_1;\n')),
    # arguments and text
    c('c19-arg-swap-keys', ('				pool_key, puzzle_hash, farmer_key, tmp_dir, tmp_dir2, directout', '				farmer_key, puzzle_hash, pool_key, tmp_dir, tmp_dir2, directout')),
    c('c19-arg-pool-from-farmer', ('		pool_key = hex_to_bytes(pool_key_str);', '		pool_key = hex_to_bytes(farmer_key_str);')),
    c('c19-arg-port-const', ('				k, port, plot_id, make_unique,', '				k, 8444, plot_id, make_unique,')),
    c('c19-arg-unique-always', ('				k, port, plot_id, make_unique,', '				k, port, plot_id, true,')),
    c('c19-arg-threads', ('make_unique, num_threads, log_num_buckets, log_num_buckets_3,\n				pool', 'make_unique, num_plots, log_num_buckets, log_num_buckets_3,\n				pool')),
    c('c19-mmx-not-unique', ('		case 11337: make_unique = true; break;\n', '		case 11337: break;\n')),
    c('c19-mmx-other-port', ('		case 11337: make_unique = true; break;\n', '		case 9699: make_unique = true; break;\n')),
    c('c19-bech-bit', ('res.dp[51] >> 4, 1', 'res.dp[51] & 1, 1')),
    c('c19-bech-50', ('i < 51; ++i', 'i < 50; ++i'), ('	bits.AppendValue(res.dp[51] >> 4, 1);', '	bits.AppendValue(res.dp[51], 5);\n	bits.AppendValue(res.dp[50] >> 4, 1);')),
    c('c19-bech-any', ('	if(res.encoding != bech32::Bech32m) {', '	if(res.encoding == bech32::Invalid) {')),
    c('c19-bech-size', ('	if(res.dp.size() != 52) {', '	if(res.dp.size() < 52) {')),
    ('c19-hex-order', ['C19'], [('include/chia/util.hpp', 'hex.substr(i, 2)', 'hex.substr(i ? i - 1 : 0, 2)')]),
    ('c19-hex-skip', ['C19'], [('include/chia/util.hpp', 'i < hex.length(); i += 2', 'i + 2 < hex.length(); i += 2')]),
    ok('c19-ok-bech-loop', ('''	for(int i = 0; i < 51; ++i) {
		bits.AppendValue(res.dp[i], 5);
	}
	bits.AppendValue(res.dp[51] >> 4, 1);
''', '''	for(size_t i = 0; i < res.dp.size(); ++i) {
		const bool last = i + 1 == res.dp.size();
		bits.AppendValue(last ? res.dp[i] >> 4 : res.dp[i], last ? 1 : 5);
	}
''')),
    ok('c19-ok-bech-hash', ('	std::vector<uint8_t> hash(32);\n	bits.ToBytes(hash.data());\n	return hash;', '	std::array<uint8_t, 32> tmp = {};\n	bits.ToBytes(tmp.data());\n	return std::vector<uint8_t>(tmp.begin(), tmp.end());')),
    ('c19-ok-hex-reserve', [], [('include/chia/util.hpp', 'std::vector<uint8_t> result;\n	for(size_t i = 0; i < hex.length(); i += 2) {\n		const std::string byteString = hex.substr(i, 2);\n		result.push_back(::strtol(byteString.c_str(), NULL, 16));',
      'std::vector<uint8_t> result;\n	result.reserve(hex.size() / 2);\n	for(size_t pos = 0; pos < hex.size(); pos += 2) {\n		result.push_back(uint8_t(std::strtoul(hex.substr(pos, 2).c_str(), nullptr, 16)));')]),
    ok('c19-ok-mmx-if', ('	switch(port) {\n		case 11337: make_unique = true; break;\n	}\n	std::vector<uint8_t> plot_id;', '	if(port == 11337) {\n		make_unique = true;\n	}\n	std::vector<uint8_t> plot_id;')),
    ok('c19-ok-mmx-or', ('	switch(port) {\n		case 11337: make_unique = true; break;\n	}\n	std::vector<uint8_t> plot_id;', '	make_unique = make_unique || port == 11337;\n	std::vector<uint8_t> plot_id;')),
    ok('c19-ok-mmx-inside', ('	switch(port) {\n		case 11337: make_unique = true; break;\n	}\n	std::vector<uint8_t> plot_id;', '	std::vector<uint8_t> plot_id;'), ('		if(make_unique) {\n			std::vector', '		if(make_unique || port == 11337) {\n			std::vector')),
    ok('c19-ok-rename-param', ('const vector<uint8_t>& pool_key_bytes,', 'const vector<uint8_t>& pk_bytes,'), ('FromByteVector(pool_key_bytes)', 'FromByteVector(pk_bytes)'), ('HexStr(pool_key_bytes)', 'HexStr(pk_bytes)'),
       ('params.memo.end(), pool_key_bytes.begin(), pool_key_bytes.end()', 'params.memo.end(), pk_bytes.begin(), pk_bytes.end()')),
]
