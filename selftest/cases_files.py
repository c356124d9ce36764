"""Cases about the operating system: resources and the file system helpers."""
FC = 'src/lamppost/Filesystem.cpp'
RD = 'src/lamppost/messages/RawDatagram.cpp'
LC = 'src/plugins/link/Link.cpp'
OPEN = '''    d = opendir(path.c_str());
    if(d != nullptr) {
      while((dir = readdir(d)) != nullptr) {
        std::string name = static_cast<char*>(dir->d_name);
        std::string fullPath = CombinePaths(path, name);

        bool filterIncludesFiles = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
        if(filterIncludesFiles && IsFile(fullPath)) {
          contents.push_back(name);
        }

        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
        if(filterIncludesDirectories && IsDirectory(fullPath)) {
          contents.push_back(name);
        }
      }

      closedir(d);
    }
'''
TESTS = OPEN[OPEN.index('        bool filterIncludesFiles'):OPEN.index('      }\n\n      closedir')]
STF = '''    struct stat path_stat = {};

    if(stat(path.c_str(), &path_stat) == 0) {
      isFile = S_ISREG(path_stat.st_mode);
    }
'''
STD = '''    struct stat path_stat = {};

    if(stat(path.c_str(), &path_stat) == 0) {
      isDirectory = S_ISDIR(path_stat.st_mode);
    }
'''
EXE = '''    std::string procExePath = "/proc/" + std::to_string(getpid()) + "/exe";
    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);

    if(bytes >= 0) {
      buffer[bytes] = '\\0';
      path = static_cast<char*>(buffer);
    }
'''
CWD = '''    if(getcwd(static_cast<char*>(buffer), bufferLength) != nullptr) {
      path = static_cast<char*>(buffer);
    }
'''
COMB = '''    combined += relative;

    return combined;
'''
FN = '''    if(pos != std::string::npos && path.size() > pos + 1)
    {
      filename = path.substr(pos + 1);
    }

    return filename;
'''
BD = '''    if(pos != std::string::npos)
    {
      directory = path.substr(0, pos);
    }

    return directory;
'''
EXT = '''    std::string filename = GetFilename(path);
    if(!filename.empty())
    {
      size_t pos = filename.find_last_of('.');

      if(pos != std::string::npos)
      {
        extension = filename.substr(pos + 1);
      }
    }

    return extension;
'''
JS = '''      tok = json_tokener_new_ex(1000);

      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
      error = tok->err;

      if(error == json_tokener_success)
      {
        ParseJsonObject(jobj, rawDatagram);
      }

      json_object_put(jobj);
      json_tokener_free(tok);
'''
UNIX = '''    size_t pos = path.find_last_of('/');
#endif

'''
CASES = [
    # C30
    ('f-same-stat-early', [], [(FC, STF, '''    struct stat info;
    if(stat(path.c_str(), &info) != 0)
    {
      return false;
    }

    return (info.st_mode & S_IFMT) == S_IFREG;
''')]),
    ('f-same-stat-and', [], [(FC, STD, '''    struct stat info = {};
    isDirectory = stat(path.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
''')]),
    ('f-same-stat-helper', [], [(FC, 'namespace lp\n{\n', '''namespace
{
  mode_t TypeOf(const std::string& path)
  {
    struct stat info = {};

    return stat(path.c_str(), &info) == 0 ? (info.st_mode & S_IFMT) : 0;
  }
}


namespace lp
{
'''), (FC, STF, '    isFile = TypeOf(path) == S_IFREG;\n'), (FC, STD, '    isDirectory = TypeOf(path) == S_IFDIR;\n')]),
    ('f-same-access', [], [(FC, 'access(path.c_str(), F_OK) != -1', 'access(path.c_str(), F_OK) == 0')]),
    ('f-same-exists-stat', [], [(FC, 'exists = access(path.c_str(), F_OK) != -1;', 'struct stat info;\n    exists = stat(path.c_str(), &info) == 0;')]),
    ('f-same-list-once', [], [(FC, TESTS, '''        int wanted = static_cast<int>(filter);
        if(((wanted & 1) != 0 && IsFile(fullPath)) || ((wanted & 2) != 0 && IsDirectory(fullPath)))
        {
          contents.push_back(name);
        }
''')]),
    ('f-same-list-hoist', [], [(FC, OPEN, '''    const bool files = filter == FilesystemObjectType::File || filter == FilesystemObjectType::Any;
    const bool directories = filter != FilesystemObjectType::File;

    DIR* handle = opendir(path.c_str());
    if(!handle)
    {
      return contents;
    }

    for(struct dirent* entry = readdir(handle); entry != nullptr; entry = readdir(handle))
    {
      const std::string name(entry->d_name);
      const std::string fullPath = CombinePaths(path, name);
      bool keep = false;
      if(files)
      {
        keep = IsFile(fullPath);
      }
      if(directories && !keep)
      {
        keep = IsDirectory(fullPath);
      }
      if(!keep)
      {
        continue;
      }
      contents.emplace_back(name);
    }

    closedir(handle);
''')]),
    ('f-same-list-forever', [], [(FC, 'while((dir = readdir(d)) != nullptr) {', 'while(true) {\n        dir = readdir(d);\n        if(dir == nullptr)\n        {\n          break;\n        }\n')]),
    ('f-same-list-owner', [], [(FC, '''    DIR* d;
    struct dirent* dir;

    d = opendir(path.c_str());
''', '''    std::unique_ptr<DIR, int (*)(DIR*)> owner(opendir(path.c_str()), closedir);
    DIR* d = owner.get();
    struct dirent* dir;

'''), (FC, '\n      closedir(d);\n', ''), (FC, '#include <lamppost/Filesystem.h>\n', '#include <lamppost/Filesystem.h>\n#include <memory>\n')]),
    ('f-same-list-guard', [], [(FC, 'namespace lp\n{\n', '''namespace
{
  struct Closer
  {
    DIR* handle;

    ~Closer()
    {
      if(handle != nullptr)
      {
        closedir(handle);
      }
    }
  };
}


namespace lp
{
'''), (FC, '    d = opendir(path.c_str());\n', '    d = opendir(path.c_str());\n    Closer closer{d};\n'), (FC, '\n      closedir(d);\n', '')]),
    ('f-same-list-switch', [], [(FC, TESTS, '''        bool keep = false;
        switch(filter)
        {
          case FilesystemObjectType::File:
            keep = IsFile(fullPath);
            break;
          case FilesystemObjectType::Directory:
            keep = IsDirectory(fullPath);
            break;
          case FilesystemObjectType::Any:
            keep = IsFile(fullPath) || IsDirectory(fullPath);
            break;
        }
        if(keep)
        {
          contents.push_back(name);
        }
''')]),
    ('f-same-combine', [], [(FC, COMB, '    return root + "/" + relative;\n')]),
    ('f-same-combine2', [], [(FC, COMB, '    combined.append(relative);\n\n    return combined;\n')]),
    ('f-same-filename', [], [(FC, FN, '''    return pos == std::string::npos ? std::string() : path.substr(pos + 1);
''')]),
    ('f-same-filename2', [], [(FC, FN, '''    if(pos == std::string::npos)
    {
      return "";
    }

    return std::string(path, pos + 1);
''')]),
    ('f-same-filename3', [], [(FC, FN, '''    if(pos != std::string::npos)
    {
      filename.assign(path, pos + 1, std::string::npos);
    }

    return filename;
''')]),
    ('f-same-filename4', [], [(FC, FN, '''    if(pos != std::string::npos)
    {
      filename = std::string(path.begin() + pos + 1, path.end());
    }

    return filename;
''')]),
    ('f-same-filename5', [], [(FC, FN, '''    if(pos != std::string::npos)
    {
      filename = path;
      filename.erase(0, pos + 1);
    }

    return filename;
''')]),
    ('f-same-rfind', [], [(FC, "size_t pos = path.find_last_of('/');", "const std::string::size_type pos = path.rfind('/');")]),
    ('f-same-rfind2', [], [(FC, "size_t pos = path.find_last_of('/');", "const auto pos = path.find_last_of(\"/\");")]),
    ('f-same-base', [], [(FC, BD, '    if(pos == std::string::npos)\n    {\n      return directory;\n    }\n\n    return path.substr(0, pos);\n')]),
    ('f-same-base2', [], [(FC, BD, '    if(pos != std::string::npos)\n    {\n      directory.assign(path, 0, pos);\n    }\n\n    return directory;\n')]),
    ('f-same-ext', [], [(FC, EXT, '''    const std::string filename = GetFilename(path);
    const size_t dot = filename.rfind('.');
    if(dot == std::string::npos)
    {
      return extension;
    }

    return filename.substr(dot + 1);
''')]),
    ('f-same-ext2', [], [(FC, EXT, '''    const size_t slash = path.rfind('/');
    const size_t dot = path.rfind('.');
    if(slash != std::string::npos && dot != std::string::npos && dot > slash)
    {
      extension = path.substr(dot + 1);
    }

    return extension;
''')]),
    ('f-same-exe', [], [(FC, EXE, '''    ssize_t bytes = readlink("/proc/self/exe", buffer, sizeof(buffer) - 1);

    if(bytes > 0) {
      path.assign(buffer, bytes);
    }
''')]),
    ('f-same-exe2', [], [(FC, EXE, '''    ssize_t bytes = readlink("/proc/self/exe", buffer, bufferLength - 1);

    if(bytes != -1) {
      buffer[bytes] = '\\0';
      path = buffer;
    }
''')]),
    ('f-same-exe3', [], [(FC, EXE, '''    const ssize_t bytes = readlink("/proc/self/exe", buffer, bufferLength);

    if(bytes < 0) {
      return "";
    }

    return std::string(buffer, static_cast<size_t>(bytes));
''')]),
    ('f-same-cwd', [], [(FC, CWD, '''    const char* result = getcwd(buffer, sizeof(buffer));
    if(!result)
    {
      return "";
    }

    path = result;
''')]),
    ('f-bug-lstat', ['C30'], [(FC, STF, STF.replace('stat(path.c', 'lstat(path.c'))]),
    ('f-bug-exists-lstat', ['C30'], [(FC, 'exists = access(path.c_str(), F_OK) != -1;', 'struct stat info;\n    exists = lstat(path.c_str(), &info) == 0;')]),
    ('f-bug-not-dir', ['C30'], [(FC, STF, STF.replace('S_ISREG(path_stat.st_mode)', '!S_ISDIR(path_stat.st_mode)'))]),
    ('f-bug-stat-ignored', ['C30'], [(FC, STD, '    struct stat path_stat = {};\n    stat(path.c_str(), &path_stat);\n    isDirectory = (path_stat.st_mode & S_IFREG) == 0;\n')]),
    ('f-bug-bits', ['C30'], [(FC, STD, STD.replace('S_ISDIR(path_stat.st_mode)', '(path_stat.st_mode & S_IFDIR) != 0 && (path_stat.st_mode & S_IFREG) != 0'))]),
    ('f-bug-exec', ['C30'], [(FC, 'F_OK) != -1', 'X_OK) != -1')]),
    ('f-bug-readable', ['C30'], [(FC, 'F_OK) != -1', 'R_OK) != -1')]),
    ('f-bug-filter-eq', ['C30'], [(FC, '(static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0', 'filter == lp::FilesystemObjectType::Directory')]),
    ('f-bug-filter-or', ['C30'], [(FC, '(static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0', '(static_cast<int>(filter) | static_cast<int>(lp::FilesystemObjectType::File)) != 0')]),
    ('f-bug-filter-old', ['C30'], [(FC, '(static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0', '(static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) == 0')]),
    ('f-bug-name-only', ['C30'], [(FC, 'filterIncludesFiles && IsFile(fullPath)', 'filterIncludesFiles && IsFile(name)')]),
    ('f-bug-dtype', ['C30'], [(FC, 'filterIncludesFiles && IsFile(fullPath)', 'filterIncludesFiles && dir->d_type == DT_REG')]),
    ('f-bug-hidden', ['C30'], [(FC, "        std::string fullPath = CombinePaths(path, name);\n\n        bool", "        if(name[0] == '.')\n        {\n          continue;\n        }\n        std::string fullPath = CombinePaths(path, name);\n\n        bool")]),
    ('f-bug-full', ['C30'], [(FC, 'filterIncludesDirectories && IsDirectory(fullPath)) {\n          contents.push_back(name)', 'filterIncludesDirectories && IsDirectory(fullPath)) {\n          contents.push_back(fullPath)')]),
    ('f-bug-first', ['C30'], [(FC, '        if(filterIncludesFiles && IsFile(fullPath)) {\n          contents.push_back(name);\n', '        if(filterIncludesFiles && IsFile(fullPath)) {\n          contents.push_back(name);\n          if(contents.size() > 1000)\n          {\n            break;\n          }\n')]),
    ('f-bug-twice', ['C30'], [(FC, 'filterIncludesDirectories && IsDirectory(fullPath)', 'filterIncludesDirectories && PathExists(fullPath)')]),
    ('f-bug-combine', ['C30'], [(FC, COMB, '    if(relative.empty())\n    {\n      return root;\n    }\n\n' + COMB)]),
    ('f-bug-first-slash', ['C30'], [(FC, "size_t pos = path.find_last_of('/');\n#endif\n\n    if(pos != std::string::npos)", "size_t pos = path.find('/');\n#endif\n\n    if(pos != std::string::npos)")]),
    ('f-bug-filename-keep', ['C30'], [(FC, FN, FN.replace('substr(pos + 1)', 'substr(pos)'))]),
    ('f-bug-base-keep', ['C30'], [(FC, BD, BD.replace('substr(0, pos)', 'substr(0, pos + 1)'))]),
    ('f-bug-base-min', ['C30'], [(FC, BD, BD.replace('!= std::string::npos)', '!= std::string::npos && pos > 1)'))]),
    ('f-bug-size', ['C30'], [(FC, FN, FN.replace('> pos + 1', '> pos + 2'))]),
    ('f-bug-ext-path', ['C30'], [(FC, EXT, "    size_t pos = path.find_last_of('.');\n    if(pos != std::string::npos)\n    {\n      extension = path.substr(pos + 1);\n    }\n\n    return extension;\n")]),
    ('f-bug-ext-first', ['C30'], [(FC, "filename.find_last_of('.')", "filename.find_first_of('.')")]),
    ('f-bug-ext-hidden', ['C30'], [(FC, "      if(pos != std::string::npos)\n      {\n        extension", "      if(pos != std::string::npos && pos > 0)\n      {\n        extension")]),
    ('f-bug-exe-over', ['C30'], [(FC, 'bufferLength)), bufferLength - 1);', 'bufferLength)), bufferLength);')]),
    ('f-bug-exe-unset', ['C30'], [(FC, '    if(bytes >= 0) {\n      buffer[bytes]', '    {\n      buffer[bytes < 0 ? 0 : bytes]')]),
    ('f-bug-exe-neg', ['C30'], [(FC, '    if(bytes >= 0) {\n      buffer[bytes]', '    if(bytes != 0) {\n      buffer[bytes]')]),
    ('f-bug-exe-parent', ['C30'], [(FC, 'getpid()) + "/exe"', 'getppid()) + "/exe"')]),
    ('f-bug-exe-short', ['C30'], [(FC, 'bufferLength)), bufferLength - 1);', 'bufferLength)), 255);')]),
    ('f-bug-exe-term', ['C30'], [(FC, "      buffer[bytes] = '\\0';\n      path = static_cast<char*>(buffer);", "      path = static_cast<char*>(buffer);")]),
    ('f-bug-cwd-over', ['C30'], [(FC, 'getcwd(static_cast<char*>(buffer), bufferLength)', 'getcwd(static_cast<char*>(buffer), 4096)')]),
    ('f-bug-cwd-unset', ['C30'], [(FC, CWD, '    getcwd(static_cast<char*>(buffer), bufferLength);\n    path = static_cast<char*>(buffer);\n')]),
    # C19
    ('f-same-json-owner', [], [(RD, JS, '''      std::unique_ptr<json_tokener, void (*)(json_tokener*)> tok(json_tokener_new_ex(1000), json_tokener_free);
      std::unique_ptr<json_object, int (*)(json_object*)> jobj(json_tokener_parse_ex(tok.get(), json.c_str(), json.length() + 1), json_object_put);

      if(json_tokener_get_error(tok.get()) == json_tokener_success)
      {
        ParseJsonObject(jobj.get(), rawDatagram);
      }
'''), (RD, '      struct json_tokener* tok;\n      struct json_object* jobj;\n      enum json_tokener_error error;\n\n', '')]),
    ('f-same-json-inside', [], [(RD, JS, JS.replace('''        ParseJsonObject(jobj, rawDatagram);
      }

      json_object_put(jobj);
''', '''        ParseJsonObject(jobj, rawDatagram);
        json_object_put(jobj);
      }

'''))]),
    ('f-same-json-early', [], [(RD, JS, JS.replace('''      error = tok->err;
''', '''      error = tok->err;
      json_tokener_free(tok);
''').replace('''      json_object_put(jobj);
      json_tokener_free(tok);
''', '''      json_object_put(jobj);
'''))]),
    ('f-same-json-return', [], [(RD, JS, JS.replace('''      if(error == json_tokener_success)
      {
        ParseJsonObject(jobj, rawDatagram);
      }
''', '''      if(error != json_tokener_success)
      {
        json_object_put(jobj);
        json_tokener_free(tok);
        return rawDatagram;
      }

      ParseJsonObject(jobj, rawDatagram);
'''))]),
    ('f-same-json-helper', [], [(RD, '''    std::shared_ptr<RawDatagram> RawDatagram::DeserializeFromJson(''', '''    static json_object* parse(json_tokener* tok, const std::string& json)
    {
      return json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
    }

    std::shared_ptr<RawDatagram> RawDatagram::DeserializeFromJson('''), (RD, 'json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);\n      error', 'parse(tok, json);\n      error')]),
    ('f-same-msg-open', [], [(LC, '''            zmq_msg_close(&messagePart);
          }
        } while''', '''            if(zmq_msg_close(&messagePart) != 0)
            {
              mLog.Warning("Failed to close a message part.");
            }
          }
        } while''')]),
    ('f-same-msg-fail-only', [], [(LC, '''        if(sendResult == rawBytes->GetSize())
        {
          successfullySent = true;
        }
        else
        {
''', '''        if(sendResult == rawBytes->GetSize())
        {
          successfullySent = true;
          zmq_msg_close(&message);
        }
        else
        {
          zmq_msg_close(&message);
'''), (LC, '''strerror(errorCode));
        }

        zmq_msg_close(&message);
''', '''strerror(errorCode));
        }
''')]),
    ('f-bug-dir-open', ['C19'], [(FC, '\n      closedir(d);\n', '')]),
    ('f-bug-dir-return', ['C19'], [(FC, 'std::string name = static_cast<char*>(dir->d_name);\n        std::string', 'std::string name = static_cast<char*>(dir->d_name);\n        if(name.empty())\n        {\n          return contents;\n        }\n        std::string')]),
    ('f-bug-dir-some', ['C19'], [(FC, '      closedir(d);\n', '      if(!contents.empty())\n      {\n        closedir(d);\n      }\n')]),
    ('f-bug-dir-twice', ['C19'], [(FC, OPEN, OPEN.replace('      while(', '      if(path.empty())\n      {\n        closedir(d);\n      }\n\n      while('))]),
    ('f-bug-dir-loop', ['C19'], [(FC, '          contents.push_back(name);\n        }\n      }\n\n      closedir(d);\n', '          contents.push_back(name);\n        }\n        closedir(d);\n      }\n\n')]),
    ('f-bug-tok', ['C19'], [(RD, '      json_tokener_free(tok);\n', '')]),
    ('f-bug-obj', ['C19'], [(RD, '      json_object_put(jobj);\n', '')]),
    ('f-bug-error-way', ['C19'], [(RD, JS, JS.replace('''      if(error == json_tokener_success)
''', '''      if(error != json_tokener_success)
      {
        return rawDatagram;
      }

      if(error == json_tokener_success)
'''))]),
    ('f-bug-throw-way', ['C19'], [(RD, JS, JS.replace('''      if(error == json_tokener_success)
''', '''      if(error != json_tokener_success)
      {
        throw exceptions::InvalidOperationException("Not JSON.");
      }

      if(error == json_tokener_success)
'''))]),
    ('f-bug-swapped', ['C19'], [(RD, JS, JS.replace('''      if(error ==''', '''      json_object_put(jobj);
      if(error ==''').replace('''      json_object_put(jobj);
      json_tokener_free''', '''      json_tokener_free'''))]),
    ('f-bug-tok-used', ['C19'], [(RD, JS, JS.replace('''      error = tok->err;
''', '''      json_tokener_free(tok);
      error = tok->err;
''').replace('''      json_object_put(jobj);
      json_tokener_free(tok);
''', '''      json_object_put(jobj);
'''))]),
    ('f-bug-borrowed', ['C19'], [(RD, 'jvalue = json_object_array_get_idx(jarray, i);', 'jvalue = json_object_array_get_idx(jarray, i);\n            if(jvalue == nullptr)\n            {\n              json_object_put(json_object_array_get_idx(jarray, i));\n            }')]),
    ('f-bug-child', ['C19'], [(RD, JS, JS.replace('      json_object_put(jobj);\n', '      if(json_object_get_type(jobj) != json_type_string)\n      {\n        json_object_put(jobj);\n      }\n'))]),
    ('f-bug-part', ['C19'], [(LC, '            zmq_msg_close(&messagePart);\n', '')]),
    ('f-bug-part-some', ['C19'], [(LC, '              more = 0;\n            }\n\n            zmq_msg_close(&messagePart);\n', '              more = 0;\n              break;\n            }\n\n            zmq_msg_close(&messagePart);\n')]),
    ('f-bug-part-cont', ['C19'], [(LC, '                topicNameSkipped = true;\n', '                topicNameSkipped = true;\n                zmq_getsockopt(zmqSocket, ZMQ_RCVMORE, &more, &sizeOfMore);\n                continue;\n')]),
    ('f-bug-send-some', ['C19'], [(LC, 'strerror(errorCode));\n        }\n\n        zmq_msg_close(&message);\n', 'strerror(errorCode));\n        }\n')]),
    ('f-bug-send-return', ['C19'], [(LC, '        int sendResult = zmq_msg_send(', '        if(zmqSocket == nullptr)\n        {\n          return false;\n        }\n\n        int sendResult = zmq_msg_send(')]),
    ('f-bug-send-early', ['C19'], [(LC, '        std::memcpy(zmq_msg_data(&message), rawBytes->GetContent(), rawBytes->GetSize());\n', '        if(rawBytes->GetSize() == 0)\n        {\n          zmq_msg_close(&message);\n        }\n        std::memcpy(zmq_msg_data(&message), rawBytes->GetContent(), rawBytes->GetSize());\n')]),
]
