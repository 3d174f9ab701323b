// B01: every bit reader and the bit writer refine one bit-exact model.
#include <fstream>
#include <optional>

#include "core.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/types.h"

namespace dst {
namespace {
using iamf_tools::FileBasedReadBitBuffer;
using iamf_tools::LebGenerator;
using iamf_tools::MemoryBasedReadBitBuffer;
using iamf_tools::ReadBitBuffer;
using iamf_tools::StreamBasedReadBitBuffer;
using iamf_tools::WriteBitBuffer;

using Bytes = std::vector<uint8_t>;

// The model: a byte string and a bit position.
struct Model {
  Bytes data;
  int64_t pos = 0;
  int64_t size() const { return static_cast<int64_t>(data.size()) * 8; }
  uint64_t Get(int64_t at, int n) const {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) {
      const int64_t p = at + i;
      v = (v << 1) | ((data[p / 8] >> (7 - p % 8)) & 1);
    }
    return v;
  }
};

Bytes RandomBytes(Ctx& c, size_t n) {
  Bytes b(n);
  uint64_t s = c.Bits();
  const uint32_t style = c.Pick(4);  // 0: zeros, 1: uniform, 2: leb-ish, 3: text with nulls
  for (auto& x : b) {
    s = Ctx::Mix(s);
    switch (style) {
      case 0: x = 0; break;
      case 1: x = s >> 8; break;
      case 2: x = (s & 3) ? (0x80 | (s >> 9)) : ((s >> 9) & 0x7f); break;
      default: x = (s & 15) ? 'a' + (s >> 9) % 26 : 0; break;
    }
  }
  return b;
}

enum Expect { kOk, kExhausted, kInvalid };
const char* Name(const absl::Status& s) {
  return s.ok() ? "ok" : absl::IsResourceExhausted(s) ? "resource-exhausted" : absl::IsInvalidArgument(s) ? "invalid-argument" : "other";
}
bool Matches(const absl::Status& s, Expect e) {
  return e == kOk ? s.ok() : e == kExhausted ? absl::IsResourceExhausted(s) : absl::IsInvalidArgument(s);
}

struct Driver {
  Ctx& c;
  Model m;
  ReadBitBuffer* rb;
  bool faulty = false;      // an I/O fault was injected during the current call
  bool position_known = true;

  // Compares the outcome of one read. `end` is the model position after a
  // success; on failure the position may be anywhere between.
  void Settle(const char* what, const absl::Status& s, Expect e, bool value_ok, int64_t end, bool atomic) {
    const bool failed_by_io = faulty && !s.ok();
    if (!failed_by_io) {
      c.Check(Matches(s, e), "reader-status",
              Fmt("%s at bit %lld of %lld: got %s, expected %s", what, (long long)m.pos, (long long)m.size(), Name(s),
                  e == kOk ? "ok" : e == kExhausted ? "resource-exhausted" : "invalid-argument"));
      if (s.ok()) c.Check(value_ok, "reader-value", Fmt("%s at bit %lld of %lld returned a wrong value", what, (long long)m.pos, (long long)m.size()));
    }
    const int64_t tell = rb->Tell();
    if (s.ok()) {
      c.Check(tell == end, "reader-position", Fmt("%s: position %lld after a read that ends at %lld", what, (long long)tell, (long long)end));
    } else if (atomic && !faulty) {
      c.Check(tell == m.pos, "reader-position", Fmt("failed %s moved the position from %lld to %lld", what, (long long)m.pos, (long long)tell));
    } else {
      c.Check(tell >= m.pos && tell <= m.size() && tell <= std::max(end, m.pos), "reader-position",
              Fmt("failed %s moved the position from %lld to %lld of %lld", what, (long long)m.pos, (long long)tell, (long long)m.size()));
    }
    m.pos = tell;
    c.Note(what, s.ok(), tell);
    c.State(HashBytes(what, 3) ^ (tell % 8) ^ (uint64_t(s.ok()) << 8) ^ (uint64_t(m.size() - tell > 64) << 9));
  }

  template <typename T>
  void Literal(int n, int max, const char* what) {
    T out = static_cast<T>(c.Bits());
    Expect e = n > max || n < 0 ? kInvalid : m.pos + n > m.size() ? kExhausted : kOk;
    const auto s = rb->ReadUnsignedLiteral(n, out);
    const bool ok = e == kOk && static_cast<uint64_t>(out) == m.Get(m.pos, n);
    Settle(what, s, e, ok, e == kOk ? m.pos + n : e == kExhausted ? m.size() : m.pos, true);
  }

  void Leb(bool iso) {
    uint32_t max = 0xffffffffu;
    if (iso) max = c.OneOf<uint32_t>({0xffffffffu, 127, 255, 16383, 0x0fffffff});
    uint64_t acc = 0;
    Expect e = kOk;
    int n = 0;
    for (int i = 0;; ++i) {
      if (m.pos + (i + 1) * 8 > m.size()) { e = kExhausted; break; }
      const uint64_t b = m.Get(m.pos + i * 8, 8);
      acc = iso ? (acc << 7) | (b & 0x7f) : acc | ((b & 0x7f) << (7 * i));
      n = i + 1;
      if (i == 7 && (b & 0x80)) { e = kInvalid; break; }
      if (acc > max) { e = kInvalid; break; }
      if (!(b & 0x80)) break;
    }
    uint32_t out = 0x5a5a5a5a;
    int8_t size = -1;
    absl::Status s;
    const bool with_size = !iso && c.Pick(2);
    if (iso) s = rb->ReadIso14496_1Expanded(max, out);
    else if (with_size) s = rb->ReadULeb128(out, size);
    else s = rb->ReadULeb128(out);
    bool ok = out == acc && (!with_size || size == n);
    int64_t end = m.pos + n * 8;
    Settle(iso ? "iso" : "leb", s, e, ok, end, false);
  }

  void String() {
    std::string want, got = "stale";
    Expect e = kInvalid;
    int n = 0;
    for (int i = 0; i < iamf_tools::kIamfMaxStringSize; ++i) {
      if (m.pos + (i + 1) * 8 > m.size()) { e = kExhausted; break; }
      const char b = static_cast<char>(m.Get(m.pos + i * 8, 8));
      ++n;
      if (b == 0) { e = kOk; break; }
      want.push_back(b);
    }
    const auto s = rb->ReadString(got);
    Settle("string", s, e, got == want, m.pos + n * 8, false);
  }

  void Span() {
    const size_t n = c.Pick(2) ? c.Pick(300) : c.Pick(12);
    Bytes out(n, 0xee);
    const Expect e = m.pos + static_cast<int64_t>(n) * 8 > m.size() ? kExhausted : kOk;
    const auto s = rb->ReadUint8Span(absl::MakeSpan(out));
    bool ok = true;
    if (e == kOk)
      for (size_t i = 0; i < n; ++i) ok &= out[i] == m.Get(m.pos + 8 * i, 8);
    const int64_t whole = (m.size() - m.pos) / 8;
    Settle("span", s, e, ok, e == kOk ? m.pos + (int64_t)n * 8 : m.pos + whole * 8, false);
  }

  void Signed() {
    switch (c.Pick(4)) {
      case 0: {
        int8_t v = 0;
        const Expect e = m.pos + 8 > m.size() ? kExhausted : kOk;
        const auto s = rb->ReadSigned8(v);
        Settle("s8", s, e, e == kOk && v == (int8_t)m.Get(m.pos, 8), m.pos + (e == kOk ? 8 : 0), true);
        break;
      }
      case 1: {
        int16_t v = 0;
        const Expect e = m.pos + 16 > m.size() ? kExhausted : kOk;
        const auto s = rb->ReadSigned16(v);
        Settle("s16", s, e, e == kOk && v == (int16_t)m.Get(m.pos, 16), m.pos + (e == kOk ? 16 : 0), true);
        break;
      }
      case 2: {
        int16_t v = 0;
        const Expect e = m.pos + 9 > m.size() ? kExhausted : kOk;
        const auto s = rb->ReadSigned9(v);
        int want = 0;
        if (e == kOk) {
          want = m.Get(m.pos, 9);
          if (want & 0x100) want -= 512;
        }
        Settle("s9", s, e, e == kOk && v == want, m.pos + (e == kOk ? 9 : 0), true);
        break;
      }
      default: {
        bool v = false;
        const Expect e = m.pos + 1 > m.size() ? kExhausted : kOk;
        const auto s = rb->ReadBoolean(v);
        Settle("bool", s, e, e == kOk && v == (m.Get(m.pos, 1) != 0), m.pos + (e == kOk ? 1 : 0), true);
      }
    }
  }

  void Seek() {
    const int64_t tell = rb->Tell();
    c.Check(tell == m.pos, "reader-position", Fmt("Tell %lld, model %lld", (long long)tell, (long long)m.pos));
    int64_t to;
    switch (c.Pick(5)) {
      case 0: to = c.Pick(m.size() + 1); break;
      case 1: to = m.size() + c.Pick(20); break;
      case 2: to = -1 - (int64_t)c.Pick(20); break;
      case 3: to = std::max<int64_t>(0, m.pos - (int64_t)c.Pick(200)); break;
      default: to = m.size(); break;
    }
    const Expect e = to < 0 ? kInvalid : to > m.size() ? kExhausted : kOk;
    const auto s = rb->Seek(to);
    if (!(faulty && !s.ok()))
      c.Check(Matches(s, e), "seek-status", Fmt("seek to %lld of %lld: %s", (long long)to, (long long)m.size(), Name(s)));
    const int64_t now = rb->Tell();
    c.Check(now == (s.ok() ? to : m.pos), "seek-position", Fmt("after seek to %lld (%s): at %lld, was %lld", (long long)to, Name(s), (long long)now, (long long)m.pos));
    m.pos = now;
    c.Note("seek", s.ok(), now);
  }

  void Ignore() {
    const int64_t n = c.Pick(m.data.size() + 3);
    const Expect e = m.pos + n * 8 > m.size() ? kExhausted : kOk;
    const auto s = rb->IgnoreBytes(n);
    Settle("ignore", s, e, true, e == kOk ? m.pos + n * 8 : m.pos, true);
  }

  void Query() {
    const int64_t n = rb->NumBytesAvailable();
    c.Check(n == (m.size() - m.pos) / 8, "reader-available",
            Fmt("NumBytesAvailable %lld, model %lld", (long long)n, (long long)(m.size() - m.pos) / 8));
    c.Check(rb->IsDataAvailable() == (n > 0), "reader-available", "IsDataAvailable disagrees");
    c.Check(rb->Tell() == m.pos, "reader-position", "Tell disagrees with the model");
  }

  void Op() {
    faulty = false;
    switch (c.Weighted({4, 4, 2, 2, 3, 1, 2, 3, 3, 1, 2})) {
      case 0: Literal<uint64_t>(c.Pick(66), 64, "lit64"); break;
      case 1: Literal<uint8_t>(c.Pick(10), 8, "lit8"); break;
      case 2: Literal<uint32_t>(c.Pick(36), 32, "lit32"); break;
      case 3: Literal<uint16_t>(c.Pick(20), 16, "lit16"); break;
      case 4: Leb(false); break;
      case 5: Leb(true); break;
      case 6: String(); break;
      case 7: Span(); break;
      case 8: Signed(); break;
      case 9: Ignore(); break;
      default: Query(); break;
    }
  }
};

void RunReader(Ctx& c) {
  const uint32_t kind = c.Pick(3);  // memory, stream, file
  size_t n = c.Weighted({3, 3, 1}) == 0 ? c.Pick(40) : c.Pick(2) ? c.Pick(400) : c.Pick(3000);
  const int ops = 5 + c.Pick(60);
  if (kind == 0) {
    Driver d{c, {RandomBytes(c, n)}, nullptr};
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(d.m.data);
    d.rb = rb.get();
    for (int i = 0; i < ops; ++i) c.Pick(5) == 4 ? d.Seek() : d.Op();
    d.Query();
  } else if (kind == 1) {
    const int64_t cap = 1 + (c.Pick(2) ? c.Pick(1024) : c.Pick(9));
    auto rb = StreamBasedReadBitBuffer::Create(cap);
    Driver d{c, {}, rb.get()};
    for (int i = 0; i < ops; ++i) {
      switch (c.Weighted({6, 3, 2, 2})) {
        case 0: d.Op(); break;
        case 1: {
          Bytes b = RandomBytes(c, c.Pick(2) ? c.Pick(300) : c.Pick(6));
          const auto s = rb->PushBytes(b);
          c.Check(s.ok(), "push-status", "push of a few bytes refused");
          d.m.data.insert(d.m.data.end(), b.begin(), b.end());
          d.Query();
          break;
        }
        case 2: d.Seek(); break;
        default: {
          rb->Flush();
          if (c.Pick(3) == 2) {
            const auto s = rb->Seek(0);
            c.Check(!s.ok(), "seek-after-flush", "seek to a position obtained before the flush is accepted");
          }
          const int64_t k = d.m.pos / 8;
          d.m.data.erase(d.m.data.begin(), d.m.data.begin() + k);
          d.m.pos -= k * 8;
          c.Note("flush", k);
          d.Query();
        }
      }
      if (i == 7 && c.Pick(40) == 39) {  // capacity of the stream is bounded
        const size_t room = size_t{4} * 1024 * 1024;
        Bytes big(room - d.m.data.size() + 1, 7);
        c.Check(!rb->PushBytes(big).ok(), "push-limit", "the source accepts more than its limit");
        d.Query();
        c.Count("push_limit");
      }
    }
  } else {
    const std::string path = ScratchDir() + "/f";
    Driver d{c, {RandomBytes(c, n)}, nullptr};
    {
      std::ofstream f(path, std::ios::binary);
      f.write(reinterpret_cast<const char*>(d.m.data.data()), d.m.data.size());
    }
    const int64_t cap = 1 + (c.Pick(2) ? c.Pick(600) : c.Pick(9));
    auto rb = FileBasedReadBitBuffer::CreateFromFilePath(cap, path);
    c.Check(rb != nullptr, "file-open", "an existing file is refused");
    d.rb = rb.get();
    const uint32_t mode = c.Pick(3);  // none, short reads, errors too
    for (int i = 0; i < ops; ++i) {
      bool hard = false;
      IoFaults io([&](IoOp op, size_t len) {
        IoDecision r;
        if (op != IoOp::kRead || mode == 0) return r;
        const uint32_t k = c.Weighted({6, 2, mode == 2 ? 1u : 0u, mode == 2 ? 1u : 0u});
        if (k == 1 && len > 1) {
          r.allow = 1 + c.Pick(len - 1);
          c.Fault("short-read");
        } else if (k == 2) {
          r.err = 5;  // EIO
          hard = true;
          c.Fault("read-error");
        } else if (k == 3) {
          r.allow = 0;  // the file became shorter
          hard = true;
          c.Fault("file-truncated-meanwhile");
        }
        d.faulty |= hard;
        return r;
      });
      // A failed stream stays failed: errors after the first fault are fine,
      // wrong values never.
      const bool was = d.faulty;
      c.Pick(5) == 4 ? d.Seek() : d.Op();
      d.faulty |= was;
      if (d.faulty) break;
    }
    if (d.faulty) {
      // After the failure every further success must still be right.
      for (int i = 0; i < 25; ++i) {
        d.faulty = true;
        const int64_t tell = d.rb->Tell();
        c.Check(tell >= 0 && tell <= d.m.size(), "reader-position", "position out of range after an I/O error");
        d.m.pos = tell;
        if (c.Pick(2)) {
          // Seek somewhere, then read a literal and compare if both succeed.
          const int64_t to = c.Pick(d.m.size() + 1);
          if (!d.rb->Seek(to).ok()) continue;
          c.Check(d.rb->Tell() == to, "seek-position", "position after seek");
          d.m.pos = to;
        }
        const int nb = c.Pick(24);
        uint64_t v = 0;
        if (d.m.pos + nb <= d.m.size() && d.rb->ReadUnsignedLiteral(nb, v).ok()) {
          c.Check(v == d.m.Get(d.m.pos, nb), "wrong-data-after-io-error",
                  Fmt("%d bits at %lld read as %llx after a failed read of the file", nb, (long long)d.m.pos, (unsigned long long)v));
          c.Count("good_reads_after_io_error");
        }
      }
    }
  }
}

// ---- writer ----
struct BitModel {
  std::vector<bool> bits;
  void Put(uint64_t v, int n) {
    for (int i = n - 1; i >= 0; --i) bits.push_back((v >> i) & 1);
  }
  Bytes ToBytes() const {
    Bytes b((bits.size() + 7) / 8, 0);
    for (size_t i = 0; i < bits.size(); ++i)
      if (bits[i]) b[i / 8] |= 0x80 >> (i % 8);
    return b;
  }
};

void RunWriter(Ctx& c) {
  std::unique_ptr<LebGenerator> leb;
  int fixed = 0;
  if (c.Pick(2)) {
    fixed = 1 + c.Pick(8);
    leb = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fixed);
    c.Check(leb != nullptr, "leb-create", "fixed-size generator refused");
  } else {
    leb = LebGenerator::Create();
  }
  WriteBitBuffer wb(c.Pick(64), *leb);
  BitModel m;
  struct Item { int kind; uint64_t v; int n; std::string s; Bytes b; };
  std::vector<Item> items;
  const int ops = 1 + c.Pick(40);
  for (int i = 0; i < ops; ++i) {
    const size_t before = m.bits.size();
    absl::Status s;
    bool legal = true;
    Item it{(int)c.Pick(9), 0, 0, "", {}};
    switch (it.kind) {
      case 0: {
        it.n = c.Pick(35);
        it.v = (uint32_t)c.Bits();
        if (c.Pick(4) != 3 && it.n < 32) it.v &= (1ull << it.n) - 1;
        // Zero bits is accepted whatever the value.
        legal = it.n == 0 || (it.n <= 32 && (it.v >> it.n) == 0);
        s = wb.WriteUnsignedLiteral(it.v, it.n);
        break;
      }
      case 1: {
        it.n = c.Pick(67);
        it.v = c.Bits();
        if (c.Pick(4) != 3 && it.n < 64) it.v &= (1ull << it.n) - 1;
        legal = it.n == 0 || it.n == 64 || (it.n < 64 && (it.v >> it.n) == 0);
        s = wb.WriteUnsignedLiteral64(it.v, it.n);
        break;
      }
      case 2: { int16_t v = c.Bits(); it.v = (uint16_t)v; it.n = 16; s = wb.WriteSigned16(v); break; }
      case 3: { int8_t v = c.Bits(); it.v = (uint8_t)v; it.n = 8; s = wb.WriteSigned8(v); break; }
      case 4: {
        int v = (int)c.Pick(700) - 350;
        legal = v >= -256 && v <= 255;
        it.v = v & 0x1ff;
        it.n = 9;
        s = wb.WriteSigned9(v);
        break;
      }
      case 5: it.v = c.Pick(2); it.n = 1; s = wb.WriteBoolean(it.v); break;
      case 6: {
        const size_t n = c.Weighted({5, 1}) ? 120 + c.Pick(14) : c.Pick(20);
        uint64_t x = c.Bits();
        for (size_t k = 0; k < n; ++k) it.s.push_back(1 + (x = Ctx::Mix(x)) % 255);
        if (n && c.Pick(8) == 7) { it.s[c.Pick(n)] = 0; legal = false; }
        if (n > 127) legal = false;
        s = wb.WriteString(it.s);
        break;
      }
      case 7: {
        it.v = c.Pick(3) == 2 ? (uint32_t)c.Bits() : c.Pick(300);
        if (c.Pick(6) == 5) it.v = 1ull << c.Pick(32);
        if (c.Pick(6) == 5) it.v = (1ull << (7 * (1 + c.Pick(4)))) - c.Pick(2);
        it.v = (uint32_t)it.v;
        legal = fixed == 0 || fixed >= 5 || it.v < (1ull << (7 * fixed));
        s = wb.WriteUleb128(it.v);
        break;
      }
      default: {
        if (c.Pick(2)) {
          it.b = RandomBytes(c, c.Pick(40));
          s = wb.WriteUint8Span(it.b);
        } else {
          it.kind = 9;
          it.v = (uint32_t)(c.Pick(2) ? c.Bits() : c.Pick(20000));
          s = wb.WriteIso14496_1Expanded(it.v);
        }
      }
    }
    c.Check(s.ok() == legal, "writer-status", Fmt("write kind %d value %llx bits %d: %s", it.kind, (unsigned long long)it.v, it.n, s.ok() ? "accepted" : "refused"));
    if (!legal) {
      c.Check(wb.bit_offset() == (int64_t)before, "writer-refused-has-effect", "a refused write moved the offset");
      c.Check(wb.bit_buffer() == m.ToBytes(), "writer-refused-has-effect", "a refused write changed the buffer");
      c.Count("refused_writes");
      continue;
    }
    switch (it.kind) {
      case 6:
        for (char ch : it.s) m.Put((uint8_t)ch, 8);
        m.Put(0, 8);
        break;
      case 7: {
        uint64_t v = it.v;
        int k = 0;
        for (;;) {
          const uint8_t b = v & 0x7f;
          v >>= 7;
          ++k;
          const bool last = fixed ? k == fixed : v == 0;
          m.Put(last ? b : b | 0x80, 8);
          if (last) break;
        }
        it.n = k;
        break;
      }
      case 8:
        for (uint8_t b : it.b) m.Put(b, 8);
        break;
      case 9: {
        Bytes t;
        uint64_t v = it.v;
        do { t.insert(t.begin(), v & 0x7f); v >>= 7; } while (v);
        for (size_t k = 0; k < t.size(); ++k) m.Put(k + 1 < t.size() ? t[k] | 0x80 : t[k], 8);
        break;
      }
      default: m.Put(it.v & (it.n >= 64 ? ~0ull : (1ull << it.n) - 1), it.n);
    }
    items.push_back(it);
    c.Check(wb.bit_offset() == (int64_t)m.bits.size(), "writer-offset", Fmt("offset %lld, expected %zu", (long long)wb.bit_offset(), m.bits.size()));
    c.Check(wb.IsByteAligned() == (m.bits.size() % 8 == 0), "writer-offset", "IsByteAligned is wrong");
    c.State((uint64_t(it.kind) << 8) | (m.bits.size() % 8));
  }
  c.Check(wb.bit_buffer() == m.ToBytes(), "writer-bytes", Fmt("buffer differs from the written values after %zu writes", items.size()));
  c.NoteBytes("written", wb.bit_buffer().data(), wb.bit_buffer().size());
  // Read back.
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(wb.bit_buffer());
  for (const auto& it : items) {
    bool ok = true;
    absl::Status s;
    switch (it.kind) {
      case 2: { int16_t v; s = rb->ReadSigned16(v); ok = (uint16_t)v == it.v; break; }
      case 3: { int8_t v; s = rb->ReadSigned8(v); ok = (uint8_t)v == it.v; break; }
      case 4: { int16_t v; s = rb->ReadSigned9(v); ok = (v & 0x1ff) == (int)it.v && v >= -256 && v <= 255; break; }
      case 5: { bool v; s = rb->ReadBoolean(v); ok = v == (it.v != 0); break; }
      case 6: { std::string v; s = rb->ReadString(v); ok = v == it.s; break; }
      case 7: { uint32_t v; int8_t n; s = rb->ReadULeb128(v, n); ok = v == it.v && n == it.n; break; }
      case 8: { Bytes v(it.b.size()); s = rb->ReadUint8Span(absl::MakeSpan(v)); ok = v == it.b; break; }
      case 9: { uint32_t v; s = rb->ReadIso14496_1Expanded(0xffffffffu, v); ok = v == it.v; break; }
      default: { uint64_t v = 0; s = rb->ReadUnsignedLiteral(it.n, v); ok = it.n == 0 || v == it.v; }
    }
    c.Check(s.ok(), "round-trip", Fmt("reading back kind %d failed", it.kind));
    c.Check(ok, "round-trip", Fmt("kind %d value %llx reads back differently", it.kind, (unsigned long long)it.v));
  }
  // Flush into a file and compare; the buffer is empty afterwards.
  const std::string path = ScratchDir() + "/w";
  std::optional<std::fstream> f;
  if (c.Pick(3)) f.emplace(path, std::ios::binary | std::ios::out);
  const auto s = wb.FlushAndWriteToFile(f);
  const bool aligned = m.bits.size() % 8 == 0;
  c.Check(s.ok() == aligned, "flush-status", "flush of an aligned buffer fails or of an unaligned one succeeds");
  if (aligned) {
    c.Check(wb.bit_offset() == 0 && wb.bit_buffer().empty(), "flush-resets", "buffer not empty after a flush");
    if (f) {
      f->close();
      std::ifstream in(path, std::ios::binary);
      Bytes got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      c.Check(got == m.ToBytes(), "flush-bytes", "file content differs from the buffer");
    }
  }
  // Signed LEB128 generation against the definition.
  std::vector<uint8_t> out;
  const int32_t sv = c.Pick(2) ? (int32_t)c.Bits() : (int32_t)c.Pick(400) - 200;
  const auto ss = leb->Sleb128ToUint8Vector(sv, out);
  const bool fits = fixed == 0 || fixed >= 5 || (sv >= -(1ll << (7 * fixed - 1)) && sv < (1ll << (7 * fixed - 1)));
  c.Check(ss.ok() == fits, "sleb-status", Fmt("signed %d in %d bytes", sv, fixed));
  if (fits) {
    int64_t v = 0;
    int sh = 0;
    for (uint8_t b : out) { v |= (int64_t)(b & 0x7f) << sh; sh += 7; }
    if (out.back() & 0x40) v |= -(1ll << sh);
    c.Check((int32_t)v == sv && (fixed == 0 || (int)out.size() == fixed), "sleb-value", Fmt("signed %d encoded as %s", sv, Hex(out.data(), out.size()).c_str()));
  }
}

void Run(Ctx& c) {
  if (c.Pick(3) == 0) RunWriter(c);
  else RunReader(c);
  c.nontrivial = true;
}

DST_PROPERTY(B01)({"B01", "", Run, 300000, 10000000,
  "each run draws one reader kind (memory, stream, file) or the writer, its capacity, its content and a sequence of up to 60 operations interleaved with pushes, flushes, seeks and I/O faults, all compared step by step with a bit model; every run is non-trivial, distinct means a distinct operation/result history",
  {"iamf/common/read_bit_buffer.cc", "iamf/common/write_bit_buffer.cc", "iamf/common/leb_generator.cc", "libstdc++ file streams"},
  {"disk: read() of the C library is intercepted"}});
}  // namespace
}  // namespace dst
