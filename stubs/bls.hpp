// Declarations only: used to parse /repo's sources.
#pragma once
#include <string>
#include <vector>
#include <array>
#include <map>
#include <cstdint>
#include <cstring>
using std::vector; using std::string;
namespace bls {
class G1Element {
public:
	static const size_t SIZE = 48;
	G1Element();
	static G1Element FromByteVector(const std::vector<uint8_t>& bytevec);
	std::vector<uint8_t> Serialize() const;
	bool IsValid() const;
};
G1Element operator+(const G1Element& a, const G1Element& b);
bool operator==(const G1Element& a, const G1Element& b);
class PrivateKey {
public:
	static const size_t PRIVATE_KEY_SIZE = 32;
	G1Element GetG1Element() const;
	std::vector<uint8_t> Serialize() const;
};
class AugSchemeMPL {
public:
	PrivateKey KeyGen(const std::vector<uint8_t>& seed);
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t index);
	PrivateKey DeriveChildSkUnhardened(const PrivateKey& sk, uint32_t index);
};
class Util {
public:
	static std::string HexStr(const uint8_t* data, size_t len);
	static std::string HexStr(const std::vector<uint8_t>& data);
	static void Hash256(uint8_t* output, const uint8_t* message, size_t messageLen);
};
}
