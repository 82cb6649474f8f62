// Values in messages of the reference implementation (libdbus)
#pragma once
#include "val.h"
#include <cstring>
#undef DBUS_H // both use it as an include guard
#include <dbus/dbus.h>
#include <memory>

namespace ldbus {
struct Free {
    void operator()(::DBusMessage* m) const { dbus_message_unref(m); }
};
typedef std::unique_ptr<::DBusMessage, Free> MsgPtr;

inline void append(DBusMessageIter* it, const Val& v)
{
    auto fail = [](bool ok) {
        if (!ok)
            throw std::logic_error("harness: libdbus refuses to append");
    };
    switch (v.t) {
    case 's':
    case 'o':
    case 'g': {
        const char* p = v.s.c_str();
        fail(dbus_message_iter_append_basic(it, v.t, &p));
        return;
    }
    case 'y': {
        uint8_t x = v.u;
        fail(dbus_message_iter_append_basic(it, v.t, &x));
        return;
    }
    case 'n':
    case 'q': {
        uint16_t x = v.u;
        fail(dbus_message_iter_append_basic(it, v.t, &x));
        return;
    }
    case 'b':
    case 'i':
    case 'u': {
        uint32_t x = v.u;
        fail(dbus_message_iter_append_basic(it, v.t, &x));
        return;
    }
    case 'x':
    case 't':
    case 'd': {
        uint64_t x = v.u;
        fail(dbus_message_iter_append_basic(it, v.t, &x));
        return;
    }
    case 'v': {
        DBusMessageIter s;
        fail(dbus_message_iter_open_container(it, DBUS_TYPE_VARIANT, v.sig.c_str(), &s));
        append(&s, v.c[0]);
        fail(dbus_message_iter_close_container(it, &s));
        return;
    }
    case 'a': {
        DBusMessageIter s;
        fail(dbus_message_iter_open_container(it, DBUS_TYPE_ARRAY, v.sig.c_str(), &s));
        for (auto& x : v.c)
            append(&s, x);
        fail(dbus_message_iter_close_container(it, &s));
        return;
    }
    case '(':
    case '{': {
        DBusMessageIter s;
        fail(dbus_message_iter_open_container(it, v.t == '(' ? DBUS_TYPE_STRUCT : DBUS_TYPE_DICT_ENTRY, nullptr, &s));
        for (auto& x : v.c)
            append(&s, x);
        fail(dbus_message_iter_close_container(it, &s));
        return;
    }
    }
    throw std::logic_error("harness: type");
}
inline Val read(DBusMessageIter* it)
{
    Val v;
    int t = dbus_message_iter_get_arg_type(it);
    switch (t) {
    case DBUS_TYPE_STRUCT:
        v.t = '(';
        break;
    case DBUS_TYPE_DICT_ENTRY:
        v.t = '{';
        break;
    default:
        v.t = char(t);
    }
    switch (v.t) {
    case 's':
    case 'o':
    case 'g': {
        const char* p = nullptr;
        dbus_message_iter_get_basic(it, &p);
        v.s = p;
        return v;
    }
    case 'v':
    case 'a':
    case '(':
    case '{': {
        DBusMessageIter s;
        dbus_message_iter_recurse(it, &s);
        if (v.t == 'a' || v.t == 'v') {
            char* sig = v.t == 'v' ? dbus_message_iter_get_signature(&s) : dbus_message_iter_get_signature(it);
            v.sig = v.t == 'v' ? sig : sig + 1;
            dbus_free(sig);
        }
        while (dbus_message_iter_get_arg_type(&s) != DBUS_TYPE_INVALID) {
            v.c.push_back(read(&s));
            dbus_message_iter_next(&s);
        }
        return v;
    }
    default: {
        DBusBasicValue b;
        memset(&b, 0, sizeof b);
        dbus_message_iter_get_basic(it, &b);
        v.u = v.t == 'y' ? b.byt : v.t == 'n' || v.t == 'q' ? b.u16 : v.t == 'b' || v.t == 'i' || v.t == 'u' ? b.u32 : b.u64;
        return v;
    }
    }
}
inline std::vector<Val> args(::DBusMessage* m)
{
    std::vector<Val> r;
    DBusMessageIter it;
    if (dbus_message_iter_init(m, &it))
        while (dbus_message_iter_get_arg_type(&it) != DBUS_TYPE_INVALID) {
            r.push_back(read(&it));
            dbus_message_iter_next(&it);
        }
    return r;
}
inline void check_args(::DBusMessage* m, const std::vector<Val>& want, const std::string& where)
{
    std::vector<Val> got = args(m);
    CHECK(got.size() == want.size(), where << ": " << got.size() << " arguments instead of " << want.size());
    for (size_t i = 0; i < got.size(); ++i)
        CHECK(ref::same(got[i], want[i]), where << ": argument " << i << " is " << ref::describe(got[i]) << " instead of " << ref::describe(want[i]));
}
inline MsgPtr demarshal(const std::string& d, std::string* err = nullptr)
{
    DBusError e;
    dbus_error_init(&e);
    MsgPtr m(dbus_message_demarshal(d.data(), int(d.size()), &e));
    if (!m && err)
        *err = e.message ? e.message : "out of memory";
    dbus_error_free(&e);
    return m;
}
} // namespace ldbus
