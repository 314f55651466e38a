// generic instances of the two disk containers: a record type and key about which nothing is known
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
namespace w {
struct Rec {
	uint64_t a, b, c;
	static constexpr size_t disk_size = 21;
	void read(const uint8_t* buf);
	void write(uint8_t* buf) const;
};
struct Key {
	uint64_t operator()(const Rec& r) const;
};
}
template class DiskSort<w::Rec, w::Key>;
template class DiskTable<w::Rec>;
