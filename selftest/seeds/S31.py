prop = 'C26'
needs = 'a directory that contains a hidden file'
breaks = 'recursive removal skips every entry whose name starts with a dot, so a directory with a hidden file is emptied but never removed'
edits = [('app_filesystem.hpp', 'if (! std::strcmp(p->d_name, ".") || ! std::strcmp(p->d_name, ".."))', "if (p->d_name[0] == '.')")]
cpp = r'''
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include "app_filesystem.hpp"
int main(int argc, const char* argv[])
{
    auto top = std::string(argv[1]);
    mkdir((top + "/a").c_str(), 0755); mkdir((top + "/a/b").c_str(), 0755);
    std::ofstream(top + "/a/x") << "x"; std::ofstream(top + "/a/b/.hidden") << "x";
    auto code = mara::filesystem::remove_recurse(top + "/a");
    std::cout << code << std::endl;
    return code == 0 && ! mara::filesystem::isdir(top + "/a") ? 0 : 1;
}
'''
sh = r'''OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" -o "$t/demo" || exit 3
mkdir "$t/scratch" && cd "$t" && timeout 120 ./demo "$t/scratch"
'''
