#!/usr/bin/env python3
"""Writes OUT/absl/{strings/string_view,strings/str_cat,status/status}.h: the installed Abseil headers
(20220623) with the source-level features the repository relies on from newer
releases (implicit string conversions as with std::string_view; AbslStringify in
StrCat). Inline-only additions: the ABI of the installed library is unchanged.
"""
import os
import sys

SYS = '/usr/include/absl/strings/'


def sub(text, old, new):
  if text.count(old) != 1:
    sys.exit('genabsl: expected exactly one %r' % old)
  return text.replace(old, new)


def put(path, text):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  if os.path.exists(path) and open(path).read() == text:
    return
  open(path, 'w').write(text)


def main():
  out = sys.argv[1]
  t = open(SYS + 'string_view.h').read()
  t = sub(t, '  explicit operator std::basic_string<char, traits_type, A>() const {',
          '  operator std::basic_string<char, traits_type, A>() const {')
  put(out + '/absl/strings/string_view.h', t)

  t = open(SYS + 'str_cat.h').read()
  t = sub(t, 'class AlphaNum {', '''namespace strings_internal {
class VerifStringifySink {
 public:
  void Append(size_t n, char c) { buf_.append(n, c); }
  void Append(absl::string_view v) { buf_.append(v.data(), v.size()); }
  bool PutPaddedString(absl::string_view v, int, int, bool) { Append(v); return true; }
  friend void AbslFormatFlush(VerifStringifySink* s, absl::string_view v) { s->Append(v); }
  const std::string& str() const { return buf_; }
 private:
  std::string buf_;
};
template <typename T, typename = void>
struct VerifHasStringify : std::false_type {};
template <typename T>
struct VerifHasStringify<T, decltype(AbslStringify(std::declval<VerifStringifySink&>(), std::declval<const T&>()))> : std::true_type {};
}  // namespace strings_internal

class AlphaNum {''')
  t = sub(t, 'std::is_enum<T>{} && !std::is_convertible<T, int>{}>::type>',
          'std::is_enum<T>{} && !std::is_convertible<T, int>{} && !strings_internal::VerifHasStringify<T>::value>::type>')
  t = sub(t, '''  // Use string literals ":" instead of character literals ':'.
  AlphaNum(char c) = delete;''', '''  template <typename T, typename std::enable_if<strings_internal::VerifHasStringify<T>::value>::type* = nullptr>
  AlphaNum(const T& v, strings_internal::VerifStringifySink&& sink = {})  // NOLINT
      : piece_((AbslStringify(sink, v), absl::string_view(sink.str()))) {}

  // Use string literals ":" instead of character literals ':'.
  AlphaNum(char c) = delete;''')
  put(out + '/absl/strings/str_cat.h', t)

  t = open('/usr/include/absl/status/status.h').read()
  t = sub(t, '? RepToPointer(rep_)->message\n',
          '? absl::string_view(RepToPointer(rep_)->message)\n')
  put(out + '/absl/status/status.h', t)

  # Hash-table iteration order becomes an input of the simulation instead of a
  # function of heap addresses and ASLR.
  t = open('/usr/include/absl/container/internal/raw_hash_set.h').read()
  t = sub(t, 'return reinterpret_cast<uintptr_t>(ctrl) >> 12;',
          'if (ctrl == EmptyGroup()) return 0;\n'
          '  return *reinterpret_cast<const size_t*>(reinterpret_cast<const char*>(ctrl) - 16);')
  # Each table keeps the salt that was in force when it was allocated, in front
  # of its control bytes: the salt may change while tables exist.
  t = sub(t, """        &alloc_ref(),
        AllocSize(capacity_, sizeof(slot_type), alignof(slot_type))));
    ctrl_ = reinterpret_cast<ctrl_t*>(mem);
""", """        &alloc_ref(),
        kVerifPrefix + AllocSize(capacity_, sizeof(slot_type), alignof(slot_type))));
    mem += kVerifPrefix;
    *reinterpret_cast<size_t*>(mem - 16) = ::verif_hash_salt;
    ctrl_ = reinterpret_cast<ctrl_t*>(mem);
""")
  t = sub(t, """        &alloc_ref(), ctrl_,
        AllocSize(capacity_,""", """        &alloc_ref(), reinterpret_cast<ctrl_t*>(reinterpret_cast<char*>(ctrl_) - kVerifPrefix),
        kVerifPrefix + AllocSize(capacity_,""")
  t = sub(t, """          &alloc_ref(), old_ctrl,
          AllocSize(old_capacity,""", """          &alloc_ref(), reinterpret_cast<ctrl_t*>(reinterpret_cast<char*>(old_ctrl) - kVerifPrefix),
          kVerifPrefix + AllocSize(old_capacity,""")
  t = sub(t, '  void destroy_slots() {\n', '  static constexpr size_t kVerifPrefix = alignof(slot_type) > 16 ? alignof(slot_type) : 16;\n  void destroy_slots() {\n')
  t = sub(t, 'namespace absl {\n', 'extern "C" unsigned long verif_hash_salt;\nnamespace absl {\n')
  # ... and everything that uses it must be compiled here, not taken from the
  # installed library, which would use the heap address.
  t = sub(t, 'extern template FindInfo find_first_non_full(const ctrl_t*, size_t, size_t);\n', '')
  t = sub(t, 'bool ShouldInsertBackwards(size_t hash, const ctrl_t* ctrl);',
          'inline bool VerifInsertBackwards(size_t hash) {\n'
          '  return ((hash >> 7) ^ ::verif_hash_salt) * 0x9e3779b97f4a7c15ull % 13 > 6;\n}')
  t = sub(t, 'ShouldInsertBackwards(hash, ctrl)) {', 'VerifInsertBackwards(hash)) {')
  put(out + '/absl/container/internal/raw_hash_set.h', t)
  t = open('/usr/include/absl/hash/internal/hash.h').read()
  t = sub(t, 'return static_cast<uint64_t>(reinterpret_cast<uintptr_t>(kSeed));',
          'return ::verif_seed_salt * 0x9e3779b97f4a7c15ull + 0x1234567;')
  t = sub(t, 'return static_cast<uint64_t>(reinterpret_cast<uintptr_t>(&kSeed));',
          'return ::verif_seed_salt * 0x9e3779b97f4a7c15ull + 0x1234567;')
  t = sub(t, 'namespace absl {\n', 'extern "C" unsigned long verif_seed_salt;\nnamespace absl {\n')
  put(out + '/absl/hash/internal/hash.h', t)

  # Likewise the order of protobuf maps, seeded with the time stamp counter.
  t = open('/usr/include/google/protobuf/map.h').read()
  t = sub(t, 'size_type s = reinterpret_cast<uintptr_t>(this) >> 4;\n#if !defined(GOOGLE_PROTOBUF_NO_RDTSC)',
          'size_type s = ::verif_hash_salt;\n#if 0')
  t = sub(t, 'namespace google {\n', 'extern "C" unsigned long verif_hash_salt;\nnamespace google {\n')
  put(out + '/google/protobuf/map.h', t)


main()
