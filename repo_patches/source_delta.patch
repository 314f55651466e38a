From 9871e6c50cca3d50c098349734ab936295e194fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 1/7] fix: do not treat a read error as end of file in
 copy_file()

A failing fread() returns a short count just like end of file does, so a
read error in the middle of a plot ended the copy "successfully" with a
truncated file, and final_copy() then removed the source.
---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..5ab4271 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -37,6 +37,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 	std::vector<uint8_t> buffer(g_read_chunk_size * 16);
 	while(true) {
 		const auto num_bytes = fread(buffer.data(), 1, buffer.size(), src);
+		if(num_bytes < buffer.size() && ferror(src)) {
+			const auto err = errno;
+			fclose(src);
+			fclose(dst);
+			throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+		}
 		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {
 			const auto err = errno;
 			fclose(src);
-- 
2.43.0


From 99b48209482e68db21034d6163ed5f6f533338a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 2/7] fix: check the final rename() in final_copy() before
 removing the source

The result of the last rename() was ignored and the source was removed
before it, so when it failed the plot stayed behind as *.tmp, was reported
as moved, and a retry found nothing to copy.
---
 include/chia/copy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 5ab4271..b58dd0f 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,14 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
 	return total_bytes;
 }
 
-- 
2.43.0


From 4acaf08442182fa57dbf86681bf4d39e6e32d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:18 +0000
Subject: [PATCH 3/7] fix: check fclose() and rename() of the finished plot in
 phase 4

The last buffered bytes of the plot are written by fclose(). Its failure
(disk full) was ignored and the truncated plot got its final name.
---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From 2854b9a53a4244964ec1c8aa9606127a476f00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:42 +0000
Subject: [PATCH 4/7] fix: check the plot header writes in WriteHeader()

The fwrite() counts were only summed up and fflush() was ignored, so a
failed header write was not noticed, and the short count was used as the
header size for all table pointers.
---
 include/chia/phase3.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..dcad901 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -242,25 +242,27 @@ uint32_t WriteHeader(
 	const std::string header_text = "Proof of Space Plot";
 	
 	size_t num_bytes = 0;
-	num_bytes += fwrite(header_text.c_str(), 1, header_text.size(), file);
-	num_bytes += fwrite((id), 1, kIdLen, file);
+	num_bytes += fwrite_ex(file, header_text.c_str(), header_text.size());
+	num_bytes += fwrite_ex(file, id, kIdLen);
 
 	uint8_t k_buffer[1] = {k};
-	num_bytes += fwrite((k_buffer), 1, 1, file);
+	num_bytes += fwrite_ex(file, k_buffer, 1);
 
 	uint8_t size_buffer[2];
 	Util::IntToTwoBytes(size_buffer, kFormatDescription.size());
-	num_bytes += fwrite((size_buffer), 1, 2, file);
-	num_bytes += fwrite(kFormatDescription.c_str(), 1, kFormatDescription.size(), file);
+	num_bytes += fwrite_ex(file, size_buffer, 2);
+	num_bytes += fwrite_ex(file, kFormatDescription.c_str(), kFormatDescription.size());
 
 	Util::IntToTwoBytes(size_buffer, memo_len);
-	num_bytes += fwrite((size_buffer), 1, 2, file);
-	num_bytes += fwrite((memo), 1, memo_len, file);
+	num_bytes += fwrite_ex(file, size_buffer, 2);
+	num_bytes += fwrite_ex(file, memo, memo_len);
 
 	uint8_t pointers[10 * 8] = {};
-	num_bytes += fwrite((pointers), 8, 10, file) * 8;
+	num_bytes += fwrite_ex(file, pointers, sizeof(pointers));
 
-	fflush(file);
+	if(fflush(file)) {
+		throw std::runtime_error("fflush() failed with: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From fbf512dcb63cb9f45db601f06ca2828be9aac882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:42 +0000
Subject: [PATCH 5/7] fix: check fclose() in DiskTable::close()

The last buffered entries are written by fclose(); a failure there lost
them silently although they are counted in num_entries.
---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..5bb47fe 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			FILE* file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From 4f811ab78e76d1099a7efe57235aec465b981fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:42 +0000
Subject: [PATCH 6/7] fix: never close a DiskSort bucket file twice, check
 fclose() on reopen

After a failed fclose() the stale handle was kept and closed again by the
destructor. Reopening a bucket for reading ignored the result of closing
the file that was just written.
---
 include/chia/DiskSort.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index 4df7c78..babc211 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -19,9 +19,7 @@
 template<typename T, typename Key>
 void DiskSort<T, Key>::bucket_t::open(const char* mode)
 {
-	if(file) {
-		fclose(file);
-	}
+	close();
 	file = fopen(file_name.c_str(), mode);
 	if(!file) {
 		throw std::runtime_error("fopen() failed with: " + std::string(std::strerror(errno)));
@@ -44,10 +42,11 @@ template<typename T, typename Key>
 void DiskSort<T, Key>::bucket_t::close()
 {
 	if(file) {
-		if(fclose(file)) {
+		FILE* tmp = file;
+		file = nullptr;
+		if(fclose(tmp)) {
 			throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
 		}
-		file = nullptr;
 	}
 }
 
-- 
2.43.0


From 65cbdf013519b1ba1e08aafb03cdea72843c6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:42 +0000
Subject: [PATCH 7/7] fix: read L_is_end under the mutex in the phase 3 merge

The flag was read again after unlocking. If the last left block arrived and
L_is_end was set between the copy and that read, the merge gave up without
copying the last block and failed with "position out of bounds".
---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index dcad901..86ba248 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -135,12 +136,13 @@ void compute_stage1(int L_index, int num_threads,
 							if(do_wait && !L_is_end) {
 								signal.wait(lock);		// wait for new input
 							} else {
+								is_end = L_is_end;
 								break;
 							}
 						}
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0

