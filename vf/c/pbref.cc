// Independent reference: decodes and re-encodes messages with libprotobuf,
// writing contents in the format of the driver's dumps.
// usage: pbref DESCRIPTOR_SET OPS RESULTS
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>

using namespace google::protobuf;
typedef FieldDescriptor F;

static std::string slurp(const char *path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

static void u8(std::string &o, int v) { o.push_back((char)v); }
static void u32(std::string &o, uint32_t v) { o.append((const char *)&v, 4); }
static void u64(std::string &o, uint64_t v) { o.append((const char *)&v, 8); }
static void blob(std::string &o, const std::string &b) { u32(o, (uint32_t)b.size()); o += b; }

static uint32_t dump(const Message &m, std::string &o);

static uint32_t one(const Message &m, const F *f, int i, std::string &o)
{
    const Reflection *r = m.GetReflection();
    bool rep = f->is_repeated();
#define GET(T) (rep ? r->GetRepeated##T(m, f, i) : r->Get##T(m, f))
    switch (f->cpp_type()) {
    case F::CPPTYPE_INT32: u64(o, (uint64_t)(int64_t)GET(Int32)); break;
    case F::CPPTYPE_INT64: u64(o, (uint64_t)GET(Int64)); break;
    case F::CPPTYPE_UINT32: u64(o, GET(UInt32)); break;
    case F::CPPTYPE_UINT64: u64(o, GET(UInt64)); break;
    case F::CPPTYPE_BOOL: u64(o, GET(Bool) ? 1 : 0); break;
    case F::CPPTYPE_ENUM: u64(o, (uint64_t)(int64_t)GET(EnumValue)); break;
    case F::CPPTYPE_FLOAT: { float x = GET(Float); uint32_t v; memcpy(&v, &x, 4); u64(o, v); break; }
    case F::CPPTYPE_DOUBLE: { double x = GET(Double); uint64_t v; memcpy(&v, &x, 8); u64(o, v); break; }
    case F::CPPTYPE_STRING: blob(o, GET(String)); break;
    case F::CPPTYPE_MESSAGE:
        return rep ? dump(r->GetRepeatedMessage(m, f, i), o) : dump(r->GetMessage(m, f), o);
    }
    return 0;
}

static uint32_t dump(const Message &m, std::string &o)
{
    const Descriptor *d = m.GetDescriptor();
    const Reflection *r = m.GetReflection();
    uint32_t unknown = (uint32_t)r->GetUnknownFields(m).field_count();
    for (int i = 0; i < d->field_count(); i++) {
        const F *f = d->field(i);
        if (f->real_containing_oneof() != nullptr) continue;
        if (f->is_repeated()) {
            int n = r->FieldSize(m, f);
            u32(o, (uint32_t)n);
            for (int k = 0; k < n; k++) unknown += one(m, f, k, o);
        } else if (f->cpp_type() == F::CPPTYPE_MESSAGE || f->has_optional_keyword()) {
            u8(o, r->HasField(m, f));
            if (r->HasField(m, f)) unknown += one(m, f, 0, o);
        } else {
            unknown += one(m, f, 0, o);
        }
    }
    for (int i = 0; i < d->real_oneof_decl_count(); i++) {
        const OneofDescriptor *od = d->oneof_decl(i);
        int k;
        for (k = 0; k < od->field_count(); k++) {
            if (r->HasField(m, od->field(k))) break;
        }
        if (k == od->field_count()) {
            u8(o, 0);
        } else {
            u8(o, k + 1);
            unknown += one(m, od->field(k), 0, o);
        }
    }
    return unknown;
}

int main(int argc, const char *argv[])
{
    if (argc < 4) return 2;
    FileDescriptorSet set;
    DescriptorPool pool;
    if (!set.ParseFromString(slurp(argv[1]))) return 3;
    for (int i = 0; i < set.file_size(); i++) {
        if (pool.BuildFile(set.file(i)) == nullptr) return 4;
    }
    DynamicMessageFactory factory(&pool);
    std::string ops = slurp(argv[2]), out;
    size_t p = 0;
    auto get = [&]() {
        uint32_t n;
        memcpy(&n, ops.data() + p, 4);
        std::string s = ops.substr(p + 4, n);
        p += 4 + n;
        return s;
    };
    while (p < ops.size()) {
        std::string name = get(), data = get(), d, s;
        const Descriptor *desc = pool.FindMessageTypeByName(name);
        if (desc == nullptr) return 5;
        std::unique_ptr<Message> m(factory.GetPrototype(desc)->New());
        bool ok = m->ParseFromString(data);
        uint32_t unknown = ok ? dump(*m, d) : 0;
        if (ok) {
            m->DiscardUnknownFields();
            io::StringOutputStream os(&s);
            io::CodedOutputStream cs(&os);
            cs.SetSerializationDeterministic(true);
            m->SerializeToCodedStream(&cs);
        }
        u8(out, ok);
        u32(out, unknown);
        blob(out, d);
        blob(out, s);
    }
    std::ofstream f(argv[3], std::ios::binary);
    f << out;
    return 0;
}
