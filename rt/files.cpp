// Files in memory, behind the stand-ins for <fstream> and Boost archives; part of the encoding and of the replay build.
#include <memory>
#include <string>
#include <vector>
#include "snn_boost.hpp"

namespace
{
    struct File { std::string path; std::vector<SnnToken> tokens; std::vector<char> bytes; };
    std::vector<std::unique_ptr<File>>& files() { static auto* f = new std::vector<std::unique_ptr<File>>(); return *f; }
}
extern "C" int snn_file_failures = 0;     // 1: nothing can be opened for writing
extern "C" int snn_file_open(const char* path, int mode)
{
    for (size_t i = 0; i < files().size(); i++)
        if (files()[i]->path == path)
        {
            if (mode && snn_file_failures) return -1;
            if (mode == 1) { files()[i]->tokens.clear(); files()[i]->bytes.clear(); }
            return (int)i;
        }
    if (!mode || snn_file_failures) return -1;
    files().push_back(std::make_unique<File>());
    files().back()->path = path;
    return (int)files().size() - 1;
}
extern "C" int snn_file_exists(const char* path)
{
    for (auto& f : files()) if (f->path == path) return 1;
    return 0;
}
extern "C" int snn_file_size(const char* path)
{
    for (auto& f : files()) if (f->path == path) return (int)(f->bytes.size() + f->tokens.size());
    return -1;
}
extern "C" int snn_file_byte(const char* path, int i)
{
    for (auto& f : files()) if (f->path == path) return (unsigned char)f->bytes[i];
    return -1;
}
void snn_file_put(int h, const SnnToken& t) { files()[h]->tokens.push_back(t); }
bool snn_file_get(int h, size_t& pos, SnnToken& t)
{
    if (h < 0 || pos >= files()[h]->tokens.size()) return false;
    t = files()[h]->tokens[pos++];
    return true;
}
void snn_file_bytes(int h, const char* p, size_t n) { for (size_t i = 0; i < n; i++) files()[h]->bytes.push_back(p[i]); }
size_t snn_file_read(int h, size_t pos, char* p, size_t n)
{
    size_t k = 0;
    while (k < n && pos + k < files()[h]->bytes.size()) { p[k] = files()[h]->bytes[pos + k]; k++; }
    return k;
}
