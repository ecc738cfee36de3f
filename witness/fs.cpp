#include <cstdio>
#include <stdexcept>
#include <string>
#include <vector>
#include "app_filesystem.hpp"

namespace witness {

namespace fs = mara::filesystem;

std::vector<std::string> split(std::string path) { return fs::split(path); }
std::string around(std::string path) { return fs::join(fs::split(path)); }
std::string join0() { return fs::join(std::vector<std::string>()); }
std::string join1(std::string a) { return fs::join(a); }
std::string join2(std::string a, std::string b) { return fs::join(a, b); }
std::string join3(std::string a, std::string b, std::string c) { return fs::join(a, b, c); }
std::string joined(std::string a, std::string b) { return fs::join({a, b}); }
std::string extension(std::string path) { return fs::extension(path); }
std::string parent(std::string path) { return fs::parent(path); }
int require(std::string path) { fs::require_dir(path); return 0; }
int remove(std::string path) { return fs::remove_recurse(path); }
int remove_one(std::string path) { return fs::remove_file(path); }
bool isfile(std::string path) { return fs::isfile(path); }
bool isdir(std::string path) { return fs::isdir(path); }
std::vector<std::string> list(std::string path) { return fs::listdir(path); }

}
