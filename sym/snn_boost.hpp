// Stand-in for Boost.Serialization used when the library is encoded: same interface, but an archive is a
// sequence of typed tokens instead of text, so that symbolic floats survive a save/load round trip.
// Like the text archive it stores values in order, tracks pointers, and needs polymorphic types registered.
#pragma once
#include <array>
#include <cstdint>
#include <fstream>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

struct SnnToken { int kind; float f; double d; int64_t i; };
extern "C" int snn_file_open(const char* path, int truncate);   // handle of the file, -1 when it cannot be opened
void snn_file_put(int handle, const SnnToken& t);
bool snn_file_get(int handle, size_t& pos, SnnToken& t);

namespace boost::archive
{
    struct archive_exception : std::exception
    {
        const char* m; int code = 0;
        explicit archive_exception(const char* m) : m(m) {}
        const char* what() const noexcept override { return m; }
    };
}
namespace boost::serialization
{
    template <class T> struct version { static constexpr unsigned value = 0; };
    class access
    {
    public:
        template <class A, class T> static void serialize(A& a, T& t, unsigned v) { t.serialize(a, v); }
        template <class T> static T* create() { return new T(); }
    };
    template <class B, class D> B& base_object(D& d) { return d; }
    template <class B, class D> const B& base_object(const D& d) { return d; }
    template <class D, class B> void void_cast_register(const D* = nullptr, const B* = nullptr) {}
    template <class T> struct nvp { const char* n; T& v; };
    template <class T> T& make_nvp(const char*, T& v) { return v; }
    template <class A, class T> void split_member(A& a, T& t, unsigned v)
    {
        if constexpr (A::is_saving::value) const_cast<const T&>(t).save(a, v); else t.load(a, v);
    }
    template <class A, class T> void serialize(A& a, T& t, const unsigned v) { access::serialize(a, t, v); }
}
#define BOOST_CLASS_VERSION(T, N) namespace boost::serialization { template <> struct version<T> { static constexpr unsigned value = N; }; }
#define BOOST_CLASS_EXPORT(T)
#define BOOST_CLASS_EXPORT_KEY(T)
#define BOOST_CLASS_EXPORT_KEY2(T, K)
#define BOOST_CLASS_EXPORT_IMPLEMENT(T)
#define BOOST_CLASS_EXPORT_GUID(T, K)
#define BOOST_CLASS_TRACKING(T, N)
#define BOOST_CLASS_IMPLEMENTATION(T, N)
#define BOOST_SERIALIZATION_ASSUME_ABSTRACT(T)
#define BOOST_SERIALIZATION_NVP(n) n
#define BOOST_SERIALIZATION_BASE_OBJECT_NVP(n) ::boost::serialization::base_object<n>(*this)
#define BOOST_SERIALIZATION_SPLIT_MEMBER() template <class A> void serialize(A& ar, const unsigned v) { ::boost::serialization::split_member(ar, *this, v); }

namespace boost::archive
{
    class text_oarchive;
    class text_iarchive;
    struct Registered
    {
        const std::type_info* type;
        void (*save)(text_oarchive&, const void*);
        void* (*load)(text_iarchive&);
    };
    template <class T> struct is_vector : std::false_type {};
    template <class T, class A> struct is_vector<std::vector<T, A>> : std::true_type {};
    template <class T> struct is_unique : std::false_type {};
    template <class T> struct is_unique<std::unique_ptr<T>> : std::true_type {};
    template <class T> struct is_shared : std::false_type {};
    template <class T> struct is_shared<std::shared_ptr<T>> : std::true_type {};
    template <class T> struct is_pair : std::false_type {};
    template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
    template <class T> struct is_array : std::false_type {};
    template <class T, size_t N> struct is_array<std::array<T, N>> : std::true_type {};

    class text_oarchive
    {
        int handle;
        std::vector<Registered> types;
        std::vector<const void*> tracked;
    public:
        typedef std::true_type is_saving;
        typedef std::false_type is_loading;
        explicit text_oarchive(std::ofstream& s, unsigned = 0) : handle(s.snn_handle()) { if (handle < 0) throw archive_exception("output stream error"); }
        text_oarchive(const text_oarchive&) = delete;
        template <class T> void register_type(const T* = nullptr) { index<T>(); }
        template <class T> text_oarchive& operator<<(const T& t) { put(t); return *this; }
        template <class T> text_oarchive& operator&(const T& t) { put(t); return *this; }

        void integer(int64_t i) { snn_file_put(handle, SnnToken{0, 0, 0, i}); }
        template <class T> static void saveObject(text_oarchive& a, const void* p) { a.put(*static_cast<const T*>(p)); }
        template <class T> int index();
        template <class T> void pointer(const T* p)
        {
            if (p == nullptr) { integer(-1); return; }
            for (size_t i = 0; i < tracked.size(); i++) if (tracked[i] == p) { integer((int64_t)i); return; }
            int k = -1;
            if constexpr (std::is_polymorphic_v<T>)
            {
                if constexpr (!std::is_abstract_v<T>) index<T>();
                for (size_t i = 0; i < types.size(); i++) if (*types[i].type == typeid(*p)) { k = (int)i; break; }
                if (k < 0) throw archive_exception("unregistered class");
            }
            else k = index<T>();
            integer(-2);
            integer(k);
            tracked.push_back(p);
            types[k].save(*this, p);
        }
        template <class T> void put(const T& t)
        {
            if constexpr (std::is_same_v<T, float>) snn_file_put(handle, SnnToken{1, t, 0, 0});
            else if constexpr (std::is_same_v<T, double>) snn_file_put(handle, SnnToken{2, 0, t, 0});
            else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) integer((int64_t)t);
            else if constexpr (std::is_same_v<T, std::string>) { integer((int64_t)t.size()); for (char c : t) integer(c); }
            else if constexpr (is_vector<T>::value) { integer((int64_t)t.size()); for (size_t i = 0; i < t.size(); i++) { typename T::value_type const& e = t[i]; put(e); } }
            else if constexpr (is_array<T>::value) { for (const auto& e : t) put(e); }
            else if constexpr (is_pair<T>::value) { put(t.first); put(t.second); }
            else if constexpr (is_unique<T>::value || is_shared<T>::value) pointer(t.get());
            else if constexpr (std::is_pointer_v<T>) pointer(t);
            else if constexpr (std::is_array_v<T>) { for (const auto& e : t) put(e); }
            else boost::serialization::serialize(*this, const_cast<T&>(t), serialization::version<T>::value);
        }
    };

    class text_iarchive
    {
        int handle;
        size_t pos = 0;
        std::vector<Registered> types;
        std::vector<void*> tracked;
        std::vector<std::pair<void*, std::shared_ptr<void>>> owners;
    public:
        typedef std::false_type is_saving;
        typedef std::true_type is_loading;
        explicit text_iarchive(std::ifstream& s, unsigned = 0) : handle(s.snn_handle()) { SnnToken t; size_t p = 0; if (handle < 0 || !snn_file_get(handle, p, t)) throw archive_exception("input stream error"); }
        text_iarchive(const text_iarchive&) = delete;
        template <class T> void register_type(const T* = nullptr) { index<T>(); }
        template <class T> text_iarchive& operator>>(T&& t) { get(t); return *this; }
        template <class T> text_iarchive& operator&(T&& t) { get(t); return *this; }

        SnnToken next(int kind)
        {
            SnnToken t;
            if (!snn_file_get(handle, pos, t) || t.kind != kind) throw archive_exception("input stream error");
            return t;
        }
        int64_t integer() { return next(0).i; }
        template <class T> static void* loadObject(text_iarchive& a)
        {
            T* p = serialization::access::create<T>();
            a.tracked.push_back(p);
            a.get(*p);
            return p;
        }
        template <class T> int index();
        template <class T> T* pointer()
        {
            int64_t i = integer();
            if (i == -1) return nullptr;
            if (i >= 0) { if ((size_t)i >= tracked.size()) throw archive_exception("invalid pointer"); return static_cast<T*>(tracked[i]); }
            if constexpr (!std::is_abstract_v<T>) index<T>();
            int64_t k = integer();
            if (k < 0 || (size_t)k >= types.size()) throw archive_exception("unregistered class");
            return static_cast<T*>(types[k].load(*this));
        }
        template <class T> void get(T& t)
        {
            if constexpr (std::is_same_v<T, float>) t = next(1).f;
            else if constexpr (std::is_same_v<T, double>) t = next(2).d;
            else if constexpr (std::is_same_v<T, bool>) t = integer() != 0;
            else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) t = (T)integer();
            else if constexpr (std::is_same_v<T, std::string>) { int64_t n = integer(); t.clear(); for (int64_t i = 0; i < n; i++) t.push_back((char)integer()); }
            else if constexpr (is_vector<T>::value)
            {
                int64_t n = integer();
                t.clear();
                t.resize((size_t)n);
                for (size_t i = 0; i < (size_t)n; i++)
                {
                    if constexpr (std::is_same_v<typename T::value_type, bool>) { bool b; get(b); t[i] = b; }
                    else get(t[i]);
                }
            }
            else if constexpr (is_array<T>::value) { for (auto& e : t) get(e); }
            else if constexpr (is_pair<T>::value) { get(t.first); get(t.second); }
            else if constexpr (is_unique<T>::value) t.reset(pointer<typename T::element_type>());
            else if constexpr (is_shared<T>::value)
            {
                typedef typename T::element_type X;
                X* p = pointer<X>();
                if (p == nullptr) { t.reset(); return; }
                for (auto& o : owners) if (o.first == p) { t = std::static_pointer_cast<X>(o.second); return; }
                t.reset(p);
                owners.push_back({p, t});
            }
            else if constexpr (std::is_pointer_v<T>) t = pointer<std::remove_pointer_t<T>>();
            else if constexpr (std::is_array_v<T>) { for (auto& e : t) get(e); }
            else boost::serialization::serialize(*this, t, serialization::version<T>::value);
        }
    };
    template <class T> int text_oarchive::index()
    {
        for (size_t i = 0; i < types.size(); i++) if (*types[i].type == typeid(T)) return (int)i;
        types.push_back({&typeid(T), &text_oarchive::saveObject<T>, nullptr});
        return (int)types.size() - 1;
    }
    template <class T> int text_iarchive::index()
    {
        for (size_t i = 0; i < types.size(); i++) if (*types[i].type == typeid(T)) return (int)i;
        types.push_back({&typeid(T), nullptr, &text_iarchive::loadObject<T>});
        return (int)types.size() - 1;
    }
    typedef text_oarchive binary_oarchive;
    typedef text_iarchive binary_iarchive;
}
