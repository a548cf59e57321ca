// An interpreter of protopaths over protobuf reflection, independent of the code generator, and an exhaustive
// enumerator of the messages that matter to a set of paths.
#ifndef VERIF_IO_ORACLE_H_
#define VERIF_IO_ORACLE_H_

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "google/protobuf/util/message_differencer.h"
#include "io_check.h"
#include "mc.h"

namespace vpc {

namespace pb = ::google::protobuf;

struct El {
  enum Kind { kReg, kStruct, kPtr, kIdx, kKey, kExt, kSlice, kKeys, kVals, kCount } kind;
  std::string field;
  int idx = 0;
  std::string key;
  bool operator==(const El& o) const { return kind == o.kind && field == o.field && idx == o.idx && key == o.key; }
};
using Path = std::vector<El>;

inline Path parse(std::string s) {
  if (s[0] == '/') s = s.substr(1);
  std::vector<std::string> parts;
  std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || (s[i] == '/' && s[i + 1] != '@')) {
      parts.push_back(cur);
      cur.clear();
    } else {
      cur += s[i];
    }
  }
  Path res;
  auto ends = [](const std::string& p, const std::string& e) { return p.size() >= e.size() && p.substr(p.size() - e.size()) == e; };
  for (std::string p : parts) {
    if (p == "*") {
      res.back().kind = El::kPtr;
    } else if (p.rfind("Ext::", 0) == 0) {
      res.push_back({El::kExt, p.substr(5)});
    } else if (p.rfind("&::", 0) == 0) {
      res.push_back({El::kStruct, p.substr(3)});
    } else if (p.rfind("count(", 0) == 0) {
      std::string f = p.substr(6, p.find('[') - 6);
      res.push_back({El::kCount, f.empty() ? "v" : f});
    } else if (ends(p, "[:]/@key")) {
      res.push_back({El::kKeys, p.substr(0, p.find('['))});
    } else if (ends(p, "[:]/@value")) {
      res.push_back({El::kVals, p.substr(0, p.find('['))});
    } else if (ends(p, "[:]")) {
      res.push_back({El::kSlice, p == "[:]" ? "v" : p.substr(0, p.find('['))});
    } else if (size_t b = p.find('['); b != std::string::npos) {
      std::string in = p.substr(b + 1, p.size() - b - 2);
      if (in[0] == '"' || in[0] == '\'') res.push_back({El::kKey, p.substr(0, b), 0, in.substr(1, in.size() - 2)});
      else if (in == "*") res.push_back({El::kKey, p.substr(0, b), 0, "*"});
      else res.push_back({El::kIdx, p.substr(0, b), std::stoi(in)});
    } else {
      res.push_back({El::kReg, p});
    }
  }
  return res;
}
inline bool is_multi(const El& e) { return e.kind == El::kSlice || e.kind == El::kKeys || e.kind == El::kVals; }
inline bool has_multi(const Path& p) { return std::any_of(p.begin(), p.end(), is_multi); }
inline bool is_size(const Path& p) { return p.back().kind == El::kCount; }

inline const pb::FieldDescriptor* field_of(const pb::Descriptor* d, const El& e) {
  const pb::FieldDescriptor* f =
      e.kind == El::kExt ? d->file()->pool()->FindExtensionByName(e.field) : d->FindFieldByName(e.field);
  if (!f) std::abort();
  return f;
}

// Canonical type name of a field (of the map value for maps).
inline std::string field_type(const pb::FieldDescriptor* f, const std::string& cpp) {
  if (cpp == "text" || cpp == "::arolla::Text") return "text";
  if (cpp == "int32_t") return "i32";
  if (cpp == "int64_t") return "i64";
  if (cpp == "uint64_t") return "u64";
  if (cpp == "float") return "f32";
  if (cpp == "double") return "f64";
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_INT32: case pb::FieldDescriptor::CPPTYPE_ENUM: return "i32";
    case pb::FieldDescriptor::CPPTYPE_INT64: case pb::FieldDescriptor::CPPTYPE_UINT32: return "i64";
    case pb::FieldDescriptor::CPPTYPE_UINT64: return "u64";
    case pb::FieldDescriptor::CPPTYPE_FLOAT: return "f32";
    case pb::FieldDescriptor::CPPTYPE_DOUBLE: return "f64";
    case pb::FieldDescriptor::CPPTYPE_BOOL: return "bool";
    default: return "bytes";
  }
}

inline std::string show_as(const std::string& type, double num, const std::string& str) {
  if (type == "i32") return show(static_cast<int32_t>(num));
  if (type == "i64") return show(static_cast<int64_t>(num));
  if (type == "u64") return show(static_cast<uint64_t>(num));
  if (type == "f32") return show(static_cast<float>(num));
  if (type == "f64") return show(num);
  if (type == "bool") return show(num != 0);
  return type + ":" + str;
}

inline std::string scalar(const pb::Message& m, const pb::FieldDescriptor* f, int idx, const std::string& type) {
  const auto* r = m.GetReflection();
  double num = 0;
  std::string str;
#define VP_GET(NAME) (idx < 0 ? r->Get##NAME(m, f) : r->GetRepeated##NAME(m, f, idx))
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_INT32: num = VP_GET(Int32); break;
    case pb::FieldDescriptor::CPPTYPE_INT64: num = VP_GET(Int64); break;
    case pb::FieldDescriptor::CPPTYPE_UINT32: num = VP_GET(UInt32); break;
    case pb::FieldDescriptor::CPPTYPE_UINT64: num = VP_GET(UInt64); break;
    case pb::FieldDescriptor::CPPTYPE_FLOAT: num = VP_GET(Float); break;
    case pb::FieldDescriptor::CPPTYPE_DOUBLE: num = VP_GET(Double); break;
    case pb::FieldDescriptor::CPPTYPE_BOOL: num = VP_GET(Bool); break;
    case pb::FieldDescriptor::CPPTYPE_ENUM: num = VP_GET(EnumValue); break;
    default: str = VP_GET(String);
  }
#undef VP_GET
  return show_as(type, num, str);
}

// Writes value number v into a scalar field; idx -1: singular, -2: append.
inline void set_scalar(pb::Message* m, const pb::FieldDescriptor* f, int idx, int v) {
  const auto* r = m->GetReflection();
#define VP_SET(NAME, T)                                       \
  if (idx == -1) r->Set##NAME(m, f, value<T>(v));             \
  else if (idx == -2) r->Add##NAME(m, f, value<T>(v));        \
  else r->SetRepeated##NAME(m, f, idx, value<T>(v))
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_INT32: VP_SET(Int32, int32_t); break;
    case pb::FieldDescriptor::CPPTYPE_INT64: VP_SET(Int64, int64_t); break;
    case pb::FieldDescriptor::CPPTYPE_UINT32: VP_SET(UInt32, uint32_t); break;
    case pb::FieldDescriptor::CPPTYPE_UINT64: VP_SET(UInt64, uint64_t); break;
    case pb::FieldDescriptor::CPPTYPE_FLOAT: VP_SET(Float, float); break;
    case pb::FieldDescriptor::CPPTYPE_DOUBLE: VP_SET(Double, double); break;
    case pb::FieldDescriptor::CPPTYPE_BOOL: VP_SET(Bool, bool); break;
    case pb::FieldDescriptor::CPPTYPE_ENUM: {
      const int e = v == 0 ? 0 : v == 1 ? 1 : 5;
      if (idx == -1) r->SetEnumValue(m, f, e);
      else if (idx == -2) r->AddEnumValue(m, f, e);
      else r->SetRepeatedEnumValue(m, f, idx, e);
      break;
    }
    default: {
      std::string s(value<::arolla::Bytes>(v));
      if (idx == -1) r->SetString(m, f, s);
      else if (idx == -2) r->AddString(m, f, s);
      else r->SetRepeatedString(m, f, idx, s);
    }
  }
#undef VP_SET
}

// Map entries by key; `order` keys are sorted as keys of their type.
struct Entries {
  std::vector<const pb::Message*> v;
  const pb::FieldDescriptor *key, *val;
};
inline Entries entries(const pb::Message& m, const pb::FieldDescriptor* f) {
  Entries e;
  const auto* r = m.GetReflection();
  e.key = f->message_type()->map_key();
  e.val = f->message_type()->map_value();
  for (int i = 0; i < r->FieldSize(m, f); ++i) e.v.push_back(&r->GetRepeatedMessage(m, f, i));
  const bool str = e.key->cpp_type() == pb::FieldDescriptor::CPPTYPE_STRING;
  const auto* k = e.key;
  std::sort(e.v.begin(), e.v.end(), [&](const pb::Message* a, const pb::Message* b) {
    const auto *ra = a->GetReflection(), *rb = b->GetReflection();
    return str ? ra->GetString(*a, k) < rb->GetString(*b, k) : ra->GetInt32(*a, k) < rb->GetInt32(*b, k);
  });
  return e;
}
inline const pb::Message* find_entry(const Entries& e, const std::string& key) {
  for (const auto* m : e.v) {
    if (m->GetReflection()->GetString(*m, e.key) == key) return m;
  }
  return nullptr;
}
inline const pb::Message& map_msg(const Entries& e, const pb::Message* entry) {
  return entry->GetReflection()->GetMessage(*entry, e.val);
}

constexpr const char* kMiss = "-";

// Values of the path starting at element k, in order; a single value path gives exactly one item.
inline void eval(const pb::Message& m, const Path& p, size_t k, const std::string& cpp, std::vector<std::string>* out) {
  const El& e = p[k];
  const bool last = k + 1 == p.size();
  const auto* r = m.GetReflection();
  const auto* f = field_of(m.GetDescriptor(), e);
  const bool more_multi = std::any_of(p.begin() + k + 1, p.end(), is_multi);
  auto missing = [&] {
    if (more_multi || is_multi(e)) return;
    out->push_back(is_size(p) ? (has_multi(p) ? "i64:0" : "0") : kMiss);
  };
  switch (e.kind) {
    case El::kCount: {
      const int n = r->FieldSize(m, f);
      out->push_back(has_multi(p) ? show(int64_t{n}) : std::to_string(n));
      return;
    }
    case El::kReg: case El::kExt: case El::kPtr: case El::kStruct: {
      const bool present = e.kind == El::kStruct || !f->has_presence() || r->HasField(m, f);
      if (!present) return missing();
      if (last) out->push_back(scalar(m, f, -1, field_type(f, cpp)));
      else eval(r->GetMessage(m, f), p, k + 1, cpp, out);
      return;
    }
    case El::kIdx: {
      if (r->FieldSize(m, f) <= e.idx) return missing();
      if (last) out->push_back(scalar(m, f, e.idx, field_type(f, cpp)));
      else eval(r->GetRepeatedMessage(m, f, e.idx), p, k + 1, cpp, out);
      return;
    }
    case El::kKey: {
      auto es = entries(m, f);
      const auto* en = find_entry(es, e.key);
      if (!en) return missing();
      if (last) out->push_back(scalar(*en, es.val, -1, field_type(es.val, cpp)));
      else eval(map_msg(es, en), p, k + 1, cpp, out);
      return;
    }
    case El::kSlice: {
      for (int i = 0; i < r->FieldSize(m, f); ++i) {
        if (last) out->push_back(scalar(m, f, i, field_type(f, cpp)));
        else eval(r->GetRepeatedMessage(m, f, i), p, k + 1, cpp, out);
      }
      return;
    }
    case El::kKeys: case El::kVals: {
      auto es = entries(m, f);
      const auto* vf = e.kind == El::kKeys ? es.key : es.val;
      for (const auto* en : es.v) {
        if (last) out->push_back(scalar(*en, vf, -1, field_type(vf, cpp)));
        else eval(map_msg(es, en), p, k + 1, cpp, out);
      }
      return;
    }
  }
}

// Type of the leaf values of the path.
inline std::string leaf_type(const pb::Descriptor* d, const Path& p, const std::string& cpp) {
  for (size_t k = 0;; ++k) {
    const auto* f = field_of(d, p[k]);
    if (p[k].kind == El::kCount) return "i64";
    const auto* vf = f->is_map() ? (p[k].kind == El::kKeys ? f->message_type()->map_key() : f->message_type()->map_value()) : f;
    if (k + 1 == p.size()) return field_type(vf, cpp);
    d = vf->message_type();
  }
}
inline std::string result_type(const pb::Descriptor* d, const Path& p, const std::string& cpp, bool has_default) {
  if (has_multi(p)) return "arr<" + leaf_type(d, p, cpp) + ">";
  if (is_size(p)) return "shape";
  return has_default ? leaf_type(d, p, cpp) : "opt<" + leaf_type(d, p, cpp) + ">";
}

inline std::string expected(const pb::Message& m, const Path& p, const std::string& cpp, const std::string* dflt = nullptr) {
  std::vector<std::string> v;
  eval(m, p, 0, cpp, &v);
  const std::string t = leaf_type(m.GetDescriptor(), p, cpp);
  if (has_multi(p)) {
    std::string s = "arr<" + t + ">[";
    for (const auto& x : v) s += x + ",";
    return s + "]";
  }
  if (is_size(p)) return "shape:" + v[0];
  if (dflt) return v[0] == kMiss ? *dflt : v[0];
  return "opt<" + t + ">" + v[0];
}

// ------------------------------------------------------------- enumeration
struct Trie {
  std::vector<std::pair<El, Trie>> kids;
  void add(const Path& p, size_t k = 0) {
    if (k == p.size()) return;
    for (auto& [e, t] : kids) {
      if (e == p[k]) return t.add(p, k + 1);
    }
    kids.push_back({p[k], Trie()});
    kids.back().second.add(p, k + 1);
  }
};

struct Filler {
  int max_size = 2;      // of repeated fields
  bool zero = true;      // top level scalars also take their default value
  bool lite = false;     // elements after the first are empty or full
  bool flat = false;     // scalars below the first level are present
  int next = 1;
  int nscalar = 0;
  void full_fresh(pb::Message* m, const std::vector<const Trie*>& nodes);
  int fresh() { return next = next % 5 + 1; }

  // Fields of `m` that occur in the trie take every combination of presence, sizes and keys.
  void fill(pb::Message* m, const std::vector<const Trie*>& nodes, int depth = 0) {
    std::vector<std::pair<const pb::FieldDescriptor*, std::vector<std::pair<El, const Trie*>>>> by_field;
    for (const Trie* t : nodes) {
      for (const auto& [e, sub] : t->kids) {
        const auto* f = field_of(m->GetDescriptor(), e);
        auto it = std::find_if(by_field.begin(), by_field.end(), [&](auto& x) { return x.first == f; });
        if (it == by_field.end()) it = by_field.insert(by_field.end(), {f, {}});
        it->second.push_back({e, &sub});
      }
    }
    const auto* r = m->GetReflection();
    for (const auto& [f, els] : by_field) {
      if (f->is_map()) {
        const auto* kf = f->message_type()->map_key();
        const auto* vf = f->message_type()->map_value();
        for (const char* key : {"k", "a"}) {
          if (!mc::choose(2)) continue;
          pb::Message* en = r->AddMessage(m, f);
          const auto* er = en->GetReflection();
          if (kf->cpp_type() == pb::FieldDescriptor::CPPTYPE_STRING) er->SetString(en, kf, key);
          else er->SetInt32(en, kf, key[0] == 'k' ? 12 : -5);
          if (vf->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
            std::vector<const Trie*> subs;
            for (const auto& [e, t] : els) {
              if (e.kind == El::kVals || (e.kind == El::kKey && (e.key == key || e.key == "*"))) subs.push_back(t);
            }
            if (lite && key[0] == 'a') {
              if (mc::choose(2)) full_fresh(er->MutableMessage(en, vf), subs);
            } else {
              fill(er->MutableMessage(en, vf), subs, depth + 1);
            }
          } else {
            set_scalar(en, vf, -1, fresh());
          }
        }
      } else if (f->is_repeated()) {
        int need = max_size;
        for (const auto& [e, t] : els) {
          if (e.kind == El::kIdx) need = std::max(need, e.idx + 1);
        }
        const int n = mc::choose(need + 1);
        for (int i = 0; i < n; ++i) {
          if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
            std::vector<const Trie*> subs;
            for (const auto& [e, t] : els) {
              if (e.kind == El::kSlice || (e.kind == El::kIdx && e.idx == i)) subs.push_back(t);
            }
            pb::Message* el = r->AddMessage(m, f);
            if (lite && i >= 1) {
              if (!subs.empty() && mc::choose(2)) full_fresh(el, subs);
            } else {
              fill(el, subs, depth + 1);
            }
          } else {
            set_scalar(m, f, -2, depth == 0 && i == 0 && !lite ? mc::choose(2) : fresh());
          }
        }
      } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
        const bool always = els[0].first.kind == El::kStruct;
        if (!always && !mc::choose(2)) continue;
        std::vector<const Trie*> subs;
        for (const auto& [e, t] : els) subs.push_back(t);
        fill(r->MutableMessage(m, f), subs, depth + 1);
      } else {
        const int c = flat && nscalar++ >= 3 ? nscalar % 2 : els[0].first.kind == El::kStruct ? 1 + mc::choose(2) : mc::choose(zero && depth <= 1 ? 3 : 2);
        if (c == 1) set_scalar(m, f, -1, fresh());
        if (c == 2) set_scalar(m, f, -1, 0);
      }
    }
  }
};

// Fields outside of the paths that must not matter: everything unset on the first level is set.
inline void add_noise(pb::Message* m, const Trie& t) {
  std::set<std::string> used;
  for (const auto& [e, sub] : t.kids) used.insert(e.field);
  const auto* r = m->GetReflection();
  const auto* d = m->GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* f = d->field(i);
    if (used.count(f->name()) || f->is_map()) continue;
    if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
      if (f->message_type()->full_name() != d->full_name()) continue;
      pb::Message* sub = f->is_repeated() ? r->AddMessage(m, f) : r->MutableMessage(m, f);
      const auto* sf = d->field(0);
      set_scalar(sub, sf, -1, 4);
    } else {
      set_scalar(m, f, f->is_repeated() ? -2 : -1, 4);
    }
  }
}

// A message with every field of the paths set.
inline void full(pb::Message* m, const std::vector<const Trie*>& nodes) {
  const auto* r = m->GetReflection();
  for (const Trie* t : nodes) {
    for (const auto& [e, sub] : t->kids) {
      const auto* f = field_of(m->GetDescriptor(), e);
      const bool msg = f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE;
      if (f->is_map()) {
        if (r->FieldSize(*m, f) > 0) {
          const auto* vf0 = f->message_type()->map_value();
          if (vf0->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
            for (int i = 0; i < r->FieldSize(*m, f); ++i) {
              auto* en = r->MutableRepeatedMessage(m, f, i);
              full(en->GetReflection()->MutableMessage(en, vf0), {&sub});
            }
          }
          continue;
        }
        for (const char* key : {"k", "b"}) {
          const auto* kf = f->message_type()->map_key();
          const auto* vf = f->message_type()->map_value();
          pb::Message* en = r->AddMessage(m, f);
          const auto* er = en->GetReflection();
          if (kf->cpp_type() == pb::FieldDescriptor::CPPTYPE_STRING) er->SetString(en, kf, key);
          else er->SetInt32(en, kf, key[0]);
          if (vf->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) full(er->MutableMessage(en, vf), {&sub});
          else set_scalar(en, vf, -1, 2);
        }
      } else if (f->is_repeated()) {
        while (r->FieldSize(*m, f) < 3) {
          if (msg) r->AddMessage(m, f);
          else set_scalar(m, f, -2, 2);
        }
        for (int i = 0; msg && i < 3; ++i) full(r->MutableRepeatedMessage(m, f, i), {&sub});
      } else if (msg) {
        full(r->MutableMessage(m, f), {&sub});
      } else {
        set_scalar(m, f, -1, 2);
      }
    }
  }
}

inline void Filler::full_fresh(pb::Message* m, const std::vector<const Trie*>& nodes) { full(m, nodes); }

// Owner of an input of any root kind, converted from a protobuf message.
struct Holder {
  Root root;
  ::vp::M m;
  ::vp::P3 p3;
  ::vp::SP sp;
  S s;
  V v;
  pb::Message* msg() {
    return root == kM ? static_cast<pb::Message*>(&m) : root == kP3 ? static_cast<pb::Message*>(&p3) : &sp;
  }
  const pb::Message* msg() const { return const_cast<Holder*>(this)->msg(); }
  explicit Holder(Root r) : root(r) {}
  // The input object that corresponds to msg().
  void* input() {
    if (root == kM) return &m;
    if (root == kP3) return &p3;
    if (root == kS) {
      s.m = sp.m();
      p = sp.p();
      s.p = sp.has_p() ? &p : nullptr;
      s.x = sp.x();
      return &s;
    }
    v.assign(sp.v().begin(), sp.v().end());
    return &v;
  }
  // Reads the object back (after it has been modified through input()).
  void read_back() {
    if (root == kS) {
      sp.Clear();
      *sp.mutable_m() = s.m;
      if (s.p) *sp.mutable_p() = p;
      sp.set_x(s.x);
    } else if (root == kV) {
      sp.Clear();
      for (const auto& x : v) *sp.add_v() = x;
    }
  }
  ::vp::M p;
};

// Drops empty submessages outside of repeated fields: whether a missing value creates them is not specified.
inline void prune(pb::Message* m) {
  const auto* r = m->GetReflection();
  std::vector<const pb::FieldDescriptor*> fs;
  r->ListFields(*m, &fs);
  for (const auto* f : fs) {
    if (f->cpp_type() != pb::FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (f->is_map()) {
      const auto* vf = f->message_type()->map_value();
      if (vf->cpp_type() != pb::FieldDescriptor::CPPTYPE_MESSAGE) continue;
      // Entries with an empty message are dropped as well.
      std::map<std::string, std::unique_ptr<pb::Message>> keep;
      for (int i = 0; i < r->FieldSize(*m, f); ++i) {
        auto* en = r->MutableRepeatedMessage(m, f, i);
        const auto* er = en->GetReflection();
        prune(er->MutableMessage(en, vf));
        if (er->GetMessage(*en, vf).ByteSizeLong() == 0) continue;
        std::unique_ptr<pb::Message> c(en->New());
        c->CopyFrom(*en);
        keep[er->GetString(*en, f->message_type()->map_key())] = std::move(c);
      }
      r->ClearField(m, f);
      for (auto& [k, c] : keep) r->AddMessage(m, f)->CopyFrom(*c);
    } else if (f->is_repeated()) {
      for (int i = 0; i < r->FieldSize(*m, f); ++i) prune(r->MutableRepeatedMessage(m, f, i));
    } else {
      auto* s = r->MutableMessage(m, f);
      prune(s);
      if (s->ByteSizeLong() == 0) r->ClearField(m, f);
    }
  }
}
inline std::string text(const pb::Message& m) {
  std::unique_ptr<pb::Message> c(m.New());
  c->CopyFrom(m);
  prune(c.get());
  return c->ShortDebugString();
}
inline bool same(const pb::Message& a, const pb::Message& b) {
  std::unique_ptr<pb::Message> x(a.New()), y(b.New());
  x->CopyFrom(a);
  y->CopyFrom(b);
  prune(x.get());
  prune(y.get());
  return pb::util::MessageDifferencer::Equals(*x, *y);
}

// ------------------------------------------------------------- writing
// Number of items that a repeated path addresses (the product of its loops).
inline void write(pb::Message* m, const Path& p, size_t k, const Items& items, size_t* pos) {
  const El& e = p[k];
  const bool last = k + 1 == p.size();
  const auto* r = m->GetReflection();
  const auto* f = field_of(m->GetDescriptor(), e);
  const bool more_multi = std::any_of(p.begin() + k + 1, p.end(), is_multi);
  // Below the last loop one item is consumed; messages are created only to hold a value.
  auto v = [&]() -> std::optional<int> { return items[*pos]; };
  switch (e.kind) {
    case El::kCount: {
      const int n = has_multi(p) ? (v() ? static_cast<int>(value<int64_t>(*v())) : -1) : *items[0];
      if (n >= 0) {
        while (r->FieldSize(*m, f) > n) r->RemoveLast(m, f);
        while (r->FieldSize(*m, f) < n) r->AddMessage(m, f);
      }
      return;
    }
    case El::kReg: case El::kExt: case El::kStruct: case El::kPtr:
      if (e.kind == El::kPtr && !r->HasField(*m, f)) return;
      if (last) {
        if (v()) set_scalar(m, f, -1, *v());
        return;
      }
      if (more_multi) {
        if (!r->HasField(*m, f) && e.kind != El::kStruct) return;
      } else if (!v()) {
        return;
      }
      return write(r->MutableMessage(m, f), p, k + 1, items, pos);
    case El::kIdx:
      if (r->FieldSize(*m, f) <= e.idx) return;
      if (last) {
        if (v()) set_scalar(m, f, e.idx, *v());
        return;
      }
      return write(r->MutableRepeatedMessage(m, f, e.idx), p, k + 1, items, pos);
    case El::kKey: {
      const auto* kf = f->message_type()->map_key();
      const auto* vf = f->message_type()->map_value();
      if (!more_multi && !v()) return;
      pb::Message* en = nullptr;
      for (int i = 0; i < r->FieldSize(*m, f); ++i) {
        auto* c = r->MutableRepeatedMessage(m, f, i);
        if (c->GetReflection()->GetString(*c, kf) == e.key) en = c;
      }
      if (!en) {
        if (more_multi) return;
        en = r->AddMessage(m, f);
        en->GetReflection()->SetString(en, kf, e.key);
        if (last) set_scalar(en, vf, -1, 0);
      }
      if (last) set_scalar(en, vf, -1, *v());
      else write(en->GetReflection()->MutableMessage(en, vf), p, k + 1, items, pos);
      return;
    }
    case El::kSlice: case El::kVals: {
      std::vector<pb::Message*> ms;
      if (e.kind == El::kSlice) {
        for (int i = 0; i < r->FieldSize(*m, f); ++i) ms.push_back(r->MutableRepeatedMessage(m, f, i));
      } else {
        // Through the mutable interface, so that the map notices the changes.
        std::vector<std::pair<std::string, pb::Message*>> es;
        const auto *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
        for (int i = 0; i < r->FieldSize(*m, f); ++i) {
          auto* c = r->MutableRepeatedMessage(m, f, i);
          es.push_back({c->GetReflection()->GetString(*c, kf), c->GetReflection()->MutableMessage(c, vf)});
        }
        std::sort(es.begin(), es.end());
        for (auto& [key, x] : es) ms.push_back(x);
      }
      for (auto* x : ms) {
        write(x, p, k + 1, items, pos);
        if (!more_multi) ++*pos;
      }
      return;
    }
    case El::kKeys: std::abort();
  }
}
inline int loop_size(const pb::Message& m, const Path& p) {
  // The path up to the last loop, counted.
  size_t last = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    if (is_multi(p[i])) last = i;
  }
  std::vector<const pb::Message*> cur = {&m};
  int n = 0;
  for (size_t k = 0; k <= last; ++k) {
    std::vector<const pb::Message*> nxt;
    for (const auto* x : cur) {
      const auto* f = field_of(x->GetDescriptor(), p[k]);
      const auto* r = x->GetReflection();
      switch (p[k].kind) {
        case El::kSlice:
          for (int i = 0; i < r->FieldSize(*x, f); ++i) nxt.push_back(&r->GetRepeatedMessage(*x, f, i));
          break;
        case El::kVals: {
          auto es = entries(*x, f);
          for (auto* en : es.v) nxt.push_back(&map_msg(es, en));
          break;
        }
        case El::kKey: {
          auto es = entries(*x, f);
          if (const auto* en = find_entry(es, p[k].key)) nxt.push_back(&map_msg(es, en));
          break;
        }
        case El::kIdx:
          if (r->FieldSize(*x, f) > p[k].idx) nxt.push_back(&r->GetRepeatedMessage(*x, f, p[k].idx));
          break;
        default:
          if (p[k].kind == El::kStruct || r->HasField(*x, f)) nxt.push_back(&r->GetMessage(*x, f));
      }
    }
    cur = nxt;
    n = static_cast<int>(cur.size());
  }
  return n;
}

}  // namespace vpc

#endif  // VERIF_IO_ORACLE_H_
