// Arbitrary-precision reference arithmetic (boost::multiprecision::cpp_int
// behind an opaque class, so harnesses do not compile boost with sanitizers).
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace ref {
class Z
{
public:
    Z(std::int64_t v = 0);
    Z(const Z&);
    Z& operator=(const Z&);
    ~Z();
    static Z u(std::uint64_t v);
    static Z be(const std::uint8_t* p, std::size_t n);
    static Z be(const std::vector<std::uint8_t>& v) { return be(v.data(), v.size()); }
    static Z le64(const std::uint64_t* p, std::size_t n);
    static Z le32(const std::uint32_t* p, std::size_t n);
    static Z hex(const char* s);
    static Z pow2(unsigned n);
    // value mod 2^(8n), as n big-endian bytes
    std::vector<std::uint8_t> bytes(std::size_t n) const;
    std::uint64_t             limb64(std::size_t i) const;
    std::uint32_t             limb32(std::size_t i) const;
    std::string               str() const;
    bool                      bit(unsigned i) const;
    unsigned                  bits() const;
    Z    operator+(const Z&) const;
    Z    operator-(const Z&) const;
    Z    operator*(const Z&) const;
    Z    operator/(const Z&) const;
    Z    operator%(const Z&) const; // non-negative for a positive modulus
    int  cmp(const Z&) const;
    bool operator==(const Z& o) const { return cmp(o) == 0; }
    bool operator!=(const Z& o) const { return cmp(o) != 0; }
    bool operator<(const Z& o) const { return cmp(o) < 0; }
    bool operator>=(const Z& o) const { return cmp(o) >= 0; }
    bool operator>(const Z& o) const { return cmp(o) > 0; }
    bool operator<=(const Z& o) const { return cmp(o) <= 0; }
    Z    powm(const Z& e, const Z& m) const;
    Z    gcd(const Z& o) const;
    bool probably_prime() const;

private:
    struct I;
    std::unique_ptr<I> i;
};
} // namespace ref
