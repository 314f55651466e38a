M = 'src/chia_plot.cpp'


def c(i, *eds):
    return (i, ['C17'], [(M,) + e for e in eds])


def ok(i, *eds):
    return (i, [], [(M,) + e for e in eds])


PR = '''	{
		const std::string path = %s + ".chia_plot_%s";
		if(auto file = fopen(path.c_str(), "wb")) {
			fclose(file);
			remove(path.c_str());
		} else {
			std::cout << "Failed to write to %s directory: '" << %s << "'" << std::endl;
			return -2;
		}
	}
'''
P1 = PR % ('tmp_dir', 'tmp', 'tmpdir', 'tmp_dir')
P2 = PR % ('tmp_dir2', 'tmp2', 'tmpdir2', 'tmp_dir2')
P3 = PR % ('final_dir', 'final', 'finaldir', 'final_dir')
P4 = PR % ('stage_dir', 'final', 'stagedir', 'stage_dir')
SEP = 'if(!%s.empty() && %s.find_last_of("/\\\\") != %s.size() - 1) {'

CASES = [
    c('c17-k-15', ('k > KMAX || k < 16', 'k > KMAX || k < 15')),
    c('c17-k-nolow', ('k > KMAX || k < 16', 'k > KMAX')),
    c('c17-k-max', ('k > KMAX || k < 16', 'k > KMAX + 1 || k < 16')),
    c('c17-k-34', ('k > KMAX || k < 16', 'k > 34 || k < 16')),
    c('c17-k-port', ('if(k > KMAX || k < 16)', 'if((k > KMAX || k < 16) && port == 8444)')),
    c('c17-k-status', ('"Invalid k option: " << k << std::endl;\n\t\treturn -2;', '"Invalid k option: " << k << std::endl;\n\t\treturn 0;')),
    c('c17-thr-zero', ('num_threads < 1 || num_threads > 1024', 'num_threads < 0 || num_threads > 1024')),
    c('c17-thr-high', ('num_threads < 1 || num_threads > 1024', 'num_threads < 1')),
    c('c17-thr-and', ('num_threads < 1 || num_threads > 1024', 'num_threads < 1 && num_threads > 1024')),
    c('c17-u-17', ('log_num_buckets < 4 || log_num_buckets > 16)', 'log_num_buckets < 4 || log_num_buckets > 17)')),
    c('c17-u-3', ('if(log_num_buckets < 4 || log_num_buckets > 16)', 'if(log_num_buckets < 3 || log_num_buckets > 16)')),
    c('c17-v-wrongvar', ('if (log_num_buckets_3 < 4 || log_num_buckets_3 > 16)', 'if (log_num_buckets < 4 || log_num_buckets_3 > 16)')),
    c('c17-v-removed', ('if (log_num_buckets_3 < 4 || log_num_buckets_3 > 16)', 'if (num_buckets_3 != num_buckets && log_num_buckets_3 > 16)')),
    c('c17-v-log', ('num_buckets_3 >= 16 ? int(log2(num_buckets_3)) : num_buckets_3', 'num_buckets_3 >= 16 ? int(log2(num_buckets_3)) + 1 : num_buckets_3'), ('log_num_buckets_3 < 4 || log_num_buckets_3 > 16', 'log_num_buckets_3 < 4 || log_num_buckets_3 > 17')),
    c('c17-pool-none', ('if(contract_addr_str.empty() && pool_key_str.empty())', 'if(contract_addr_str.empty() && pool_key_str.empty() && farmer_key_str.empty())'), ('pool_key.size() != bls::G1Element::SIZE', '!pool_key.empty() && pool_key.size() != bls::G1Element::SIZE')),
    c('c17-pool-both', ('if(!contract_addr_str.empty() && !pool_key_str.empty())', 'if(!contract_addr_str.empty() && !pool_key_str.empty() && port == 8444)')),
    c('c17-pool-size', ('pool_key.size() != bls::G1Element::SIZE', 'pool_key.size() < bls::G1Element::SIZE')),
    c('c17-pool-size-removed', ('pool_key.size() != bls::G1Element::SIZE', 'pool_key.empty()')),
    c('c17-pool-status', ('see `chia keys show`)" << std::endl;\n\t\t\treturn -2;', 'see `chia keys show`)" << std::endl;\n\t\t\treturn 0;')),
    c('c17-contract-catch', ('see `chia plotnft show`)" << std::endl;\n\t\t\treturn -2;', 'see `chia plotnft show`)" << std::endl;')),
    c('c17-farmer-size', ('if(farmer_key.size() != bls::G1Element::SIZE)', 'if(farmer_key.size() > bls::G1Element::SIZE)')),
    c('c17-farmer-contract', ('if(farmer_key.size() != bls::G1Element::SIZE)', 'if(contract_addr_str.empty() && farmer_key.size() != bls::G1Element::SIZE)')),
    c('c17-id-size', ('if(plot_id.size() != 32) {', 'if(plot_id.size() > 32) {')),
    c('c17-id-short', ('if(plot_id.size() != 32) {', 'if(plot_id.size() < 32) {')),
    c('c17-id-unique', ('if(plot_id.size() != 32) {', 'if(!make_unique && plot_id.size() != 32) {')),
    c('c17-tmp-sep', (SEP % (('tmp_dir',) * 3), 'if(!tmp_dir.empty() && tmp_dir.find_last_of("/\\\\") == std::string::npos) {')),
    c('c17-tmp2-sep', (SEP % (('tmp_dir2',) * 3), SEP % (('tmp_dir',) * 3))),
    c('c17-final-sep', (SEP % (('final_dir',) * 3), 'if(!final_dir.empty() && final_dir.find_last_of("/\\\\") != final_dir.size() - 1 && !directout) {')),
    c('c17-stage-sep', (SEP % (('stage_dir',) * 3), 'if(!stage_dir.empty() && stage_dir.find_last_of("/\\\\") > stage_dir.size() - 1) {')),
    c('c17-tmp-sep-status', ('"Invalid tmpdir: " << tmp_dir << " (needs trailing \'/\' or \'\\\\\')" << std::endl;\n\t\treturn -2;', '"Invalid tmpdir: " << tmp_dir << " (needs trailing \'/\' or \'\\\\\')" << std::endl;\n\t\treturn 0;')),
    c('c17-probe-final-removed', (P3, '')),
    c('c17-probe-final-direct', (P3, '\tif(directout)\n' + P3)),
    c('c17-probe-stage-removed', (P4, '')),
    c('c17-probe-tmp2-noreturn', (P2, P2.replace('\t\t\treturn -2;\n', ''))),
    c('c17-probe-tmp2-wrong', (P2, P2.replace('path = tmp_dir2', 'path = tmp_dir'))),
    c('c17-probe-final-wrong', (P3, P3.replace('path = final_dir', 'path = stage_dir'))),
    c('c17-probe-final-read', (P3, P3.replace('"wb"', '"rb"'))),
    c('c17-probe-stage-status', (P4, P4.replace('return -2', 'return 0'))),
    c('c17-stage-default', ('\tif(stage_dir.empty()) {\n\t\tstage_dir = tmp_dir;\n\t}\n', ''), ('directout ? final_dir : stage_dir', 'directout ? final_dir : (stage_dir.empty() ? tmp_dir : stage_dir)'), (P4, '')),
    c('c17-late-final', (P3, ''), (P4, '')),

    ok('c17-ok-probe-helper', ('int main(int argc, char** argv)', '''static bool can_write(const std::string& dir, const std::string& name)
{
	const std::string path = dir + name;
	if(auto file = fopen(path.c_str(), "wb")) {
		fclose(file);
		remove(path.c_str());
		return true;
	}
	return false;
}

int main(int argc, char** argv)'''), (P1, '\tif(!can_write(tmp_dir, ".chia_plot_tmp")) {\n\t\tstd::cout << "Failed to write to tmpdir directory" << std::endl;\n\t\treturn -2;\n\t}\n'),
        (P2, '\tif(!can_write(tmp_dir2, ".chia_plot_tmp2")) {\n\t\treturn -2;\n\t}\n'), (P3, '\tif(!can_write(final_dir, ".chia_plot_final")) {\n\t\treturn -2;\n\t}\n'),
        (P4, '\tif(!can_write(stage_dir, ".chia_plot_final")) {\n\t\treturn -2;\n\t}\n')),
    ok('c17-ok-probe-loop', (P1, '\tfor(const auto& dir : {tmp_dir, tmp_dir2, final_dir, stage_dir})\n' + PR.replace('%s + ".chia_plot_%s"', 'dir + ".chia_plot_tmp"').replace('%s', 'dir')), (P2, ''), (P3, ''), (P4, '')),
    ok('c17-ok-sep-helper', ('int main(int argc, char** argv)', '''static bool bad_dir(const std::string& dir)
{
	return !dir.empty() && dir.find_last_of("/\\\\") != dir.size() - 1;
}

int main(int argc, char** argv)'''), *[(SEP % ((d,) * 3), 'if(bad_dir(%s)) {' % d) for d in ('tmp_dir', 'tmp_dir2', 'final_dir', 'stage_dir')]),
    ok('c17-ok-sep-back', ('int main(int argc, char** argv)', '''static bool has_sep(const std::string& dir)
{
	const char last = dir.back();
	return last == '/' || last == '\\\\';
}

int main(int argc, char** argv)'''), *[(SEP % ((d,) * 3), 'if(!%s.empty() && !has_sep(%s)) {' % (d, d)) for d in ('tmp_dir', 'tmp_dir2', 'final_dir', 'stage_dir')]),
    ok('c17-ok-k-order', ('k > KMAX || k < 16', 'k < 16 || KMAX < k')),
    ok('c17-ok-k-and', ('if(k > KMAX || k < 16) {', 'const bool k_ok = k >= 16 && k <= KMAX;\n\tif(!k_ok) {')),
    ok('c17-ok-pool-xor', ('if(!contract_addr_str.empty() && !pool_key_str.empty()) {', 'const bool have_contract = !contract_addr_str.empty();\n\tconst bool have_pool = !pool_key_str.empty();\n\tif(have_contract && have_pool) {')),
    ok('c17-ok-logfn', ('int main(int argc, char** argv)', 'static int get_log(const int num) { return num >= 16 ? int(log2(num)) : num; }\n\nint main(int argc, char** argv)'),
        ('num_buckets >= 16 ? int(log2(num_buckets)) : num_buckets;', 'get_log(num_buckets);'), ('num_buckets_3 >= 16 ? int(log2(num_buckets_3)) : num_buckets_3;', 'get_log(num_buckets_3);')),
    ok('c17-ok-logloop', ('int main(int argc, char** argv)', 'static int get_log(int num) { if(num < 16) { return num; } int res = 0; while(num > 1) { num >>= 1; ++res; } return res; }\n\nint main(int argc, char** argv)'),
        ('num_buckets >= 16 ? int(log2(num_buckets)) : num_buckets;', 'get_log(num_buckets);'), ('num_buckets_3 >= 16 ? int(log2(num_buckets_3)) : num_buckets_3;', 'get_log(num_buckets_3);')),
    ok('c17-ok-err-var', ('\tif(num_threads < 1 || num_threads > 1024) {', '\tconst int kError = -2;\n\tif(num_threads < 1 || num_threads > 1024) {'),
        ('(supported: [1..1024])" << std::endl;\n\t\treturn -2;', '(supported: [1..1024])" << std::endl;\n\t\treturn kError;')),
    ok('c17-ok-probe-order', (P1 + P2 + P3, P3 + P2 + P1)),
    ok('c17-ok-rename', *[]) if 0 else ok('c17-ok-probe-neg', (P2, '''	{
		const std::string path = tmp_dir2 + ".chia_plot_tmp2";
		FILE* file = fopen(path.c_str(), "wb");
		if(!file) {
			std::cout << "Failed to write to tmpdir2 directory: '" << tmp_dir2 << "'" << std::endl;
			return -2;
		}
		fclose(file);
		remove(path.c_str());
	}
''')),
    ok('c17-ok-final-cond', (P3, '\tif(final_dir != stage_dir)\n' + P3)),
    ok('c17-ok-tmp2-cond', (P2, '\tif(tmp_dir2 != tmp_dir)\n' + P2)),
    c('c17-final-cond-tmp2', (P3, '\tif(final_dir != stage_dir && final_dir != plot_id_str)\n' + P3)),
    ok('c17-ok-stream', (P2, '''	{
		const std::string path = tmp_dir2 + ".chia_plot_tmp2";
		std::ofstream file(path);
		if(!file.good()) {
			return -2;
		}
		file.close();
		remove(path.c_str());
	}
'''), ('#include <csignal>', '#include <csignal>\n#include <fstream>')),
    ok('c17-ok-open', (P2, '''	{
		const std::string path = tmp_dir2 + ".chia_plot_tmp2";
		const int fd = ::open(path.c_str(), O_CREAT | O_WRONLY, 0644);
		if(fd < 0) {
			return -2;
		}
		::close(fd);
		remove(path.c_str());
	}
'''), ('#include <csignal>', '#include <csignal>\n#include <fcntl.h>')),
    ok('c17-ok-size-const', ('if(farmer_key.size() != bls::G1Element::SIZE)', 'if(farmer_key.size() != 48)')),
    ok('c17-ok-validate-fn', ('int main(int argc, char** argv)', '''static bool validate(int num_threads, int lb, int lb3)
{
	if(num_threads < 1 || num_threads > 1024) {
		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
		return false;
	}
	for(int v : {lb, lb3}) {
		if(v < 4 || v > 16) {
			std::cout << "Invalid buckets" << std::endl;
			return false;
		}
	}
	return true;
}

int main(int argc, char** argv)'''), ('\tif(num_threads < 1 || num_threads > 1024) {\n\t\tstd::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;\n\t\treturn -2;', '\tif(!validate(num_threads, log_num_buckets, log_num_buckets_3)) {\n\t\treturn -2;'),
        ('if(log_num_buckets < 4 || log_num_buckets > 16) {', 'if(false) {'), ('if (log_num_buckets_3 < 4 || log_num_buckets_3 > 16) {', 'if(false) {')),
]
