// Declarations only: used to parse /repo's sources.
#pragma once
#include <string>
#include <vector>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct DecodedResult { Encoding encoding; std::string hrp; std::vector<unsigned char> dp; };
DecodedResult decode(const std::string& bstr);
std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp);
}
