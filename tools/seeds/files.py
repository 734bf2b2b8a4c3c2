FS = 'src/utils_filesystem.cpp'
FSH = '''#include "utils_filesystem.h"
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
using namespace ccgl::utils_filesystem;
static void put(const char* p, const std::string& s) { std::ofstream f(p); f << s; }
'''
seed('c19-core', 'C19', [(FS, "string::size_type end = abspath.find_last_of('.');", "string::size_type end = abspath.find('.', start);")],
     'a file name with two dots', 'the core name of x.tar.gz is x while its suffix is gz, so taken apart and put together the name changes',
     FSH + '''int main() { EXPECT(GetCoreFileName("/q/x.tar.gz") == "x.tar"); EXPECT(AppendCoreFileName("/q/x.tar.gz", "1") == "/q/x.tar_1.gz"); return fails; }
''')
seed('c19-nodir', 'C19', [(FS, "if (concatpath.find_last_of(SEP) != concatpath.length() - 1) {", "if (concatpath.empty() || concatpath.find_last_of(SEP) != concatpath.length() - 1) {")],
     'a file name without directory', 'appending to the name of a file given without directory yields a path at the root of the file system',
     FSH + '''int main() { EXPECT(AppendCoreFileName("x.tif", "1") == "x_1.tif"); EXPECT(PrefixCoreFileName("/q/x.tif", 3) == "/q/3_x.tif"); return fails; }
''')
seed('c20-hidden', 'C20', [(FS, '''        if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
            snprintf''', '''        if (entry->d_name[0] != '.') {
            snprintf''')],
     'a hidden file in the directory', 'a directory with a hidden file is reported as deleted but stays',
     FSH + '''int main() { MakeDirectory("d"); put("d/a", "1"); put("d/.h", "1"); EXPECT(DeleteDirectory("d")); EXPECT(!DirectoryExists("d")); return fails; }
''')
seed('c20-sidecar', 'C20', [(FS, '''        return remove(abspath.c_str());
    }
    return -1;''', '''        int state = remove(abspath.c_str());
        string sidecar = ReplaceSuffix(abspath, "prj");
        if (state == 0 && !sidecar.empty() && GetSuffix(abspath) != "prj") { remove(sidecar.c_str()); }
        return state;
    }
    return -1;''')],
     'a file of the same core name with the suffix prj', 'deleting a file deletes another one as well',
     FSH + '''int main() { put("a.tif", "1"); put("a.prj", "1"); EXPECT(DeleteExistedFile("a.tif") == 0); EXPECT(!FileExists("a.tif")); EXPECT(FileExists("a.prj")); return fails; }
''')
seed('c21-twice', 'C21', [(FS, "vector<string>(content_strs).swap(content_strs);", "vector<string>(content_strs.begin() + (content_strs.size() > 1 && content_strs[0] == content_strs[1] ? 1 : 0), content_strs.end()).swap(content_strs);")],
     'a first line that is repeated', 'the repeated line is lost',
     FSH + '''int main() { put("t", "1 2\\n1 2\\n3\\n"); std::vector<std::string> v; EXPECT(LoadPlainTextFile("t", v)); EXPECT(v.size() == 3); return fails; }
''')
