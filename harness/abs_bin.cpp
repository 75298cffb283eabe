// Layouts of the repository's section files and headers, for the proofs of B01 and B02.
#include <cstddef>
#include <cstdint>
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
#define O(c, f) extern const uint64_t o_##c##_##f = offsetof(c, f);
typedef ZKeyUtils::Header Zkey;
typedef WtnsUtils::Header Wtns;
typedef BinFileUtils::BinFile File;
extern "C" {
O(Zkey, n8q) O(Zkey, qPrime) O(Zkey, n8r) O(Zkey, rPrime) O(Zkey, nVars) O(Zkey, nPublic) O(Zkey, domainSize) O(Zkey, nCoefs)
O(Zkey, vk_alpha1) O(Zkey, vk_beta1) O(Zkey, vk_beta2) O(Zkey, vk_gamma2) O(Zkey, vk_delta1) O(Zkey, vk_delta2)
O(Wtns, n8) O(Wtns, prime) O(Wtns, nVars)
O(File, addr) O(File, pos) O(File, sections) O(File, readingSection)
extern const uint64_t o_File_total = sizeof(File), o_Section_total = sizeof(File::Section);

extern const uint64_t o_Section_start = offsetof(File::Section, start), o_Section_size = offsetof(File::Section, size);
}
