// Analysis stub of libcppbor: declarations only.
#ifndef VERIF_STUB_CPPBOR_H_
#define VERIF_STUB_CPPBOR_H_
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace cppbor {
enum MajorType : uint8_t { UINT = 0, NINT = 1 << 5, BSTR = 2 << 5, TSTR = 3 << 5, ARRAY = 4 << 5, MAP = 5 << 5, SEMANTIC = 6 << 5, SIMPLE = 7 << 5 };
class Int; class Uint; class Nint; class Tstr; class Bstr; class Simple; class Bool; class Array; class Map; class Null; class SemanticTag;
class Item {
 public:
  virtual ~Item() {}
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; }
  const Int* asInt() const;
  virtual Uint* asUint() { return nullptr; }
  const Uint* asUint() const;
  virtual Nint* asNint() { return nullptr; }
  const Nint* asNint() const;
  virtual Tstr* asTstr() { return nullptr; }
  const Tstr* asTstr() const;
  virtual Bstr* asBstr() { return nullptr; }
  const Bstr* asBstr() const;
  virtual Map* asMap() { return nullptr; }
  const Map* asMap() const;
  virtual Array* asArray() { return nullptr; }
  const Array* asArray() const;
  virtual std::unique_ptr<Item> clone() const = 0;
  std::vector<uint8_t> encode() const;
  std::string toString() const;
};
class Int : public Item { public: virtual int64_t value() const = 0; };
class Uint : public Int { public: explicit Uint(uint64_t v); MajorType type() const override; int64_t value() const override; uint64_t unsignedValue() const; std::unique_ptr<Item> clone() const override; };
class Nint : public Int { public: explicit Nint(int64_t v); MajorType type() const override; int64_t value() const override; std::unique_ptr<Item> clone() const override; };
class Bstr : public Item { public: Bstr(); explicit Bstr(std::vector<uint8_t> v); explicit Bstr(const std::string& v); template <typename I> Bstr(I b, I e) {} explicit Bstr(std::pair<const uint8_t*, size_t> b); MajorType type() const override; const std::vector<uint8_t>& value() const; std::vector<uint8_t>&& moveValue(); std::unique_ptr<Item> clone() const override; };
class Tstr : public Item { public: explicit Tstr(std::string v); MajorType type() const override; const std::string& value() const; std::unique_ptr<Item> clone() const override; };
class Array : public Item {
 public:
  Array();
  template <typename... A> Array(A&&... a) {}
  template <typename T> Array& add(T&& v) & { return *this; }
  template <typename T> Array&& add(T&& v) && { return std::move(*this); }
  const std::unique_ptr<Item>& operator[](size_t i) const;
  std::unique_ptr<Item>& operator[](size_t i);
  const std::unique_ptr<Item>& get(size_t i) const;
  std::unique_ptr<Item>& get(size_t i);
  size_t size() const;
  MajorType type() const override;
  std::unique_ptr<Item>* begin(); std::unique_ptr<Item>* end();
  std::unique_ptr<Item> clone() const override;
};
class Map : public Item {
 public:
  using entry_type = std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>;
  Map();
  template <typename... A> Map(A&&... a) {}
  template <typename K, typename V> Map& add(K&& k, V&& v) & { return *this; }
  template <typename K, typename V> Map&& add(K&& k, V&& v) && { return std::move(*this); }
  template <typename K> const std::unique_ptr<Item>& get(K key) const;
  std::vector<entry_type>::const_iterator begin() const;
  std::vector<entry_type>::const_iterator end() const;
  std::vector<entry_type>::iterator begin();
  std::vector<entry_type>::iterator end();
  Map& canonicalize(bool recurse = false) &;
  Map&& canonicalize(bool recurse = false) &&;
  size_t size() const;
  MajorType type() const override;
  std::unique_ptr<Item> clone() const override;
};
}  // namespace cppbor
#endif
