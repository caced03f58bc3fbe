// Reference model: the erasure codes as plain linear codes over their field,
// computed with schoolbook arithmetic.  Shares no code with the library.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include "codes.h"

namespace sim {

struct FieldM {
    bool binary = false;
    int bits = 0;  // binary: extension degree
    u128 poly = 0; // binary: reduction polynomial without the leading term
    u128 p = 0;    // prime field
    u128 root = 0; // the primitive element the codes use
    std::vector<u128> factors; // prime factors of the multiplicative order
    u128 add(u128 a, u128 b) const { return binary ? (a ^ b) : (a + b) % p; }
    u128 sub(u128 a, u128 b) const { return binary ? (a ^ b) : (a + p - b) % p; }
    u128 mul(u128 a, u128 b) const;
    u128 pow(u128 a, u128 e) const;
    u128 inv(u128 a) const;
    u128 order() const; // of the multiplicative group
    static const FieldM& get(bool binary, int bits, u128 p);
};

typedef std::pair<size_t, uint32_t> Mark;
typedef std::vector<Mark> Marks;

struct Encoded {
    std::vector<Bytes> frag; // n_out fragments
    std::vector<Marks> marks;
};

class Model {
  public:
    explicit Model(const CodeCfg& c);
    CodeCfg cfg;
    unsigned k, m, n_out;
    uint64_t n = 0;       // internal codeword length
    unsigned lanes;       // sub-symbols per word
    unsigned lane_bytes;
    const FieldM* f;
    std::vector<u128> G;  // n_out x k
    u128 g(unsigned i, unsigned j) const { return G[(size_t)i * k + j]; }
    Encoded encode(const std::vector<Bytes>& data) const;
    // Does the field have values that do not fit a stored (sub-)word?
    bool has_oor() const { return !f->binary; }
    u128 lane_get(const Bytes& b, size_t word, unsigned lane) const;
    void lane_set(Bytes& b, size_t word, unsigned lane, u128 v) const;
    // Adjust the data so that output `frags` carry an unrepresentable symbol
    // in lane `lane` of word `word`.  Returns false when not possible.
    bool craft(std::vector<Bytes>& data, size_t word, unsigned lane,
               const std::vector<int>& frags, uint64_t seed) const;
};
const Model& model_for(const CodeCfg& c); // valid during the run
void model_trim();                        // between runs

// Is (kind, T, w, k, m, ...) inside the documented operating range?
bool in_domain(const CodeCfg& c);

std::vector<Bytes> gen_data(const Model& md, size_t words, uint64_t seed,
                            const std::string& pat);

} // namespace sim
#endif
