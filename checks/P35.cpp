// P35: the downloader of large meshes leaves exactly the asked-for files in its folder.
#include <unistd.h>

#include <pybind11/embed.h>
#include <pybind11/stl.h>

#define ASAN_EXTRA ":quarantine_size_mb=1"
#include "bridge.h"
using namespace ref;
namespace py = pybind11;

extern "C" PyObject *PyInit_tinymesh();

// The network is replaced by a table of what there is under each address. Everything else happens in a scratch folder.
static const char *const DRIVER = R"(
import contextlib, importlib.util, io, os, re, shutil, sys, tarfile, types, zipfile

site = {}
asked = []

class Response(object):
    def __init__(self, data):
        self.content = data
        self.headers = {'content-length': str(len(data)), 'Content-Length': str(len(data))}
        self.status_code, self.ok, self.reason = 200, True, 'OK'
        self.raw = io.BytesIO(data)
    def iter_content(self, chunk_size=1, decode_unicode=False):
        # as with the real one, chunks may come shorter than asked for or empty
        at, step = 0, 0
        while at < len(self.content):
            step += 1
            if step % 7 == 3:
                yield b''
            n = max(1, chunk_size // 3) if step % 5 == 4 else chunk_size
            yield self.content[at:at + n]
            at += n
    def raise_for_status(self):
        pass
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *args):
        return False

def get(url, *args, **kwargs):
    asked.append(url)
    return Response(site[url])

requests = types.ModuleType('requests')
requests.get = get

class Session(object):
    def __init__(self):
        self.headers = {}
    def get(self, url, *args, **kwargs):
        return get(url, *args, **kwargs)
    def mount(self, *args):
        pass
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *args):
        return False

requests.Session = requests.session = Session
exceptions = types.ModuleType('requests.exceptions')
class RequestException(IOError):
    pass
for _name in ('RequestException', 'HTTPError', 'ConnectionError', 'Timeout', 'URLRequired', 'TooManyRedirects', 'ChunkedEncodingError'):
    _class = RequestException if _name == 'RequestException' else type(_name, (RequestException,), {})
    setattr(exceptions, _name, _class)
    setattr(requests, _name, _class)
requests.exceptions = exceptions
sys.modules['requests'] = requests
sys.modules['requests.exceptions'] = exceptions

def pack(kind, members):
    out = io.BytesIO()
    if kind == 'zip':
        with zipfile.ZipFile(out, 'w') as z:
            for name, data in members:
                z.writestr(name, data)
    else:
        with tarfile.open(fileobj=out, mode='w:gz' if kind == 'tar.gz' else 'w') as t:
            for name, data in members:
                info = tarfile.TarInfo(name)
                info.size = len(data)
                t.addfile(info, io.BytesIO(data))
    return out.getvalue()

def files(top):
    found = {}
    for folder, _, names in os.walk(top):
        for n in names:
            p = os.path.join(folder, n)
            with open(p, 'rb') as f:
                found[os.path.relpath(p, top)] = f.read()
    return found

def inside(scratch, what):
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    home = os.getcwd()
    os.chdir(scratch)
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said):
            try:
                what()
                error = None
            except (Exception, SystemExit) as e:
                error = '%s: %s' % (type(e).__name__, e)
        return error, files('.'), said.getvalue()
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)

def load(path, scratch):
    # whatever it does while being loaded, it does in the scratch folder
    made = []
    def what():
        spec = importlib.util.spec_from_file_location('get_large_meshes', path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        made.append(mod)
    error = inside(scratch, what)[0]
    if error:
        raise RuntimeError(error)
    return made[0]

def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)

def named(mod, url):
    return mod.get_file_from_url(url)

def bar(mod, rate):
    return mod.bar_string(rate)

def unpack(mod, scratch, archive, data, target, out):
    def what():
        put(archive, data)
        mod.unarchive(archive, target, out)
    return inside(scratch, what)

def fetch(mod, scratch, url, data):
    site.clear()
    site[url] = data
    name = []
    error, left, said = inside(scratch, lambda: name.append(mod.download(url)))
    return error, left, said, name[0] if name else None

def everything(mod, scratch, items, folder, made):
    site.clear()
    table = type(mod.url_list)()
    for name, url, target, data in items:
        site[url] = data
        table[name] = mod.Item(url, target)
    keep = mod.url_list, mod.target_folder
    mod.url_list, mod.target_folder = table, folder
    def what():
        if made:
            os.makedirs(folder)
        mod.main()
    try:
        return inside(scratch, what)
    finally:
        mod.url_list, mod.target_folder = keep
)";

static py::object *scope;
static py::object *module;
static std::string broken;  // why the program cannot be loaded

static std::string scratch() {
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) abort();
    return std::string(cwd) + "/build/tmp-P35/" + std::to_string(getpid());
}

static void startPython() {
    PyImport_AppendInittab("tinymesh", &PyInit_tinymesh);
    PyConfig config;
    PyConfig_InitPythonConfig(&config);
    config.install_signal_handlers = 0;
    config.write_bytecode = 0;
    const PyStatus st = Py_InitializeFromConfig(&config);
    PyConfig_Clear(&config);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "Python does not start: %s\n", st.err_msg);
        exit(3);
    }
    try {
        py::dict d;
        d["__builtins__"] = py::module_::import("builtins");
        d["__name__"] = "driver";
        py::exec(DRIVER, d);
        scope = new py::object(d);
        const char *repo = getenv("TINYMESH_REPO");
        try {
            module = new py::object(d["load"](std::string(repo ? repo : "/repo") + "/data/get_large_meshes.py", scratch()));
        } catch (py::error_already_set &e) {
            broken = std::string(e.what()).substr(0, 300);
        }
    } catch (py::error_already_set &e) {
        fprintf(stderr, "%s\n", e.what());
        exit(3);
    }
}
static py::object get(const char *name) { return (*scope)[name]; }
static std::string word(Gen &g, int lo = 1) {
    static const char letters[] = "abcdefghijklmnopqrstuvwxyz0123456789_-";
    std::string s;
    for (int k = (int)g.integer(lo, 8); k > 0; k--) s += letters[g.pick((int)sizeof letters - 1)];
    return s;
}
static std::string content(Gen &g) {
    const int n = g.chance(0.1) ? 0 : g.chance(0.2) ? (int)g.integer(1, 4) * 1024 : (int)g.integer(1, 6000);
    Noise nz(g.seedChoice());
    std::string s((size_t)n, 0);
    for (char &x : s) x = (char)(int)(nz.sym() * 127);
    return s;
}
static const char *const KINDS[] = { "tar.gz", "tar", "zip" };
static std::string address(Gen &g, const std::string &file, bool &query, bool odd = false) {
    std::string url = g.chance(0.5) ? "http://" : "https://";
    url += word(g) + "." + word(g);
    for (int k = (int)g.integer(0, 3); k > 0; k--) url += "/" + word(g);
    url += "/" + file;
    query = g.chance(0.4);
    if (query) {
        url += "?" + word(g, 0);
        for (int k = (int)g.integer(0, 3); k > 0; k--) url += std::string(1, "=&/?"[g.pick(odd ? 4 : 2)]) + word(g, 0);
    }
    return url;
}

struct Packed {
    std::string target, wanted;  // name looked for and what it holds
    py::list members;
    int matches = 0;
};
// Members in folders, `matches` of which have the name looked for
static Packed members(Gen &g, int matches) {
    Packed p;
    p.target = "t_" + word(g) + (g.chance(0.7) ? ".ply" : ".obj");
    p.matches = matches;
    const int others = (int)g.integer(0, 5);
    std::vector<int> order;
    for (int k = 0; k < others; k++) order.push_back(0);
    for (int k = 0; k < matches; k++) order.insert(order.begin() + g.pick((int)order.size() + 1), 1);
    int n = 0;
    for (int is : order) {
        std::string folder;
        if (g.chance(0.6)) folder = "f" + std::to_string(n) + word(g) + "/";
        if (is && matches > 1) folder = "g" + std::to_string(n) + "/";
        const std::string data = content(g);
        // other members begin with another letter, so none contains the name looked for
        const std::string name = folder + (is ? p.target : "o" + std::to_string(n) + word(g) + ".ply");
        if (is) p.wanted = data;
        p.members.append(py::make_tuple(name, py::bytes(data)));
        n++;
    }
    return p;
}

static void names(Case &c) {
    c.label("name of a file");
    bool query;
    const std::string file = word(c.g) + "." + KINDS[c.g.pick(3)], url = address(c.g, file, query, c.g.chance(0.3));
    c.describe("%s", url.c_str());
    const std::string got = get("named")(*module, url).cast<std::string>();
    // Known: the name is what follows the last slash, up to the last question mark, even if these belong to the query
    const std::string tail = url.substr(url.rfind('/') + 1), cut = tail.substr(0, tail.rfind('?'));
    if (got != file && got == cut) c.known("download-query", "the name is taken from the query if that holds a slash or a second question mark");
    c.require(got == file, "the file at %s is called %s", url.c_str(), got.c_str());
    if (query) c.label("query");
    c.nontrivial = query;
}

static void bars(Case &c) {
    c.label("bar");
    const double rate = c.g.chance(0.1) ? 100.0 : c.g.chance(0.2) ? 2.5 * (double)c.g.integer(0, 39) : c.g.real(0, 100);
    c.describe("bar at %.17g", rate);
    const std::string got = get("bar")(*module, rate).cast<std::string>();
    c.require(got.size() == 40, "the bar has %zu characters", got.size());
    const size_t full = got.find_first_not_of('=') == std::string::npos ? got.size() : got.find_first_not_of('=');
    if (rate == 100.0) {
        c.require(full == 40, "the bar is not full at the end");
    } else {
        c.require(full < 40 && got[full] == '>' && got.find_first_not_of(' ', full + 1) == std::string::npos, "the bar is '%s'", got.c_str());
        c.require(std::fabs((double)full + 0.5 - rate / 2.5) <= 0.5 + 1e-9, "%zu of 40 characters at %g %%", full, rate);
    }
    c.nontrivial = rate > 2.5;
}

static std::map<std::string, std::string> filesOf(const py::object &d) {
    std::map<std::string, std::string> r;
    for (const auto &x : py::cast<py::dict>(d)) r[x.first.cast<std::string>()] = x.second.cast<std::string>();
    return r;
}
static void unpacking(Case &c) {
    Gen &g = c.g;
    const int matches = g.chance(0.7) ? 1 : g.chance(0.5) ? 0 : (int)g.integer(2, 3);
    const Packed p = members(g, matches);
    const char *kind = KINDS[g.pick(3)];
    const bool odd = g.chance(0.1);
    const std::string archive = "a_" + word(g) + "." + (odd ? "rar" : kind), out = "x_" + word(g) + ".ply";
    c.describe("%s of %zu members, %d of the name looked for", archive.c_str(), (size_t)py::len(p.members), matches);
    const std::string data = get("pack")(kind, p.members).cast<std::string>();
    const py::tuple r = get("unpack")(*module, scratch(), archive, py::bytes(data), p.target, out);
    std::map<std::string, std::string> left = filesOf(r[1]);
    c.require(left.count(archive) && left[archive] == data, "unpacking changed the archive");
    left.erase(archive);
    if (odd || matches != 1) {
        c.require(!r[0].is_none(), "%s", odd ? "an archive of unknown kind was accepted" : "an archive without a unique member of that name was accepted");
        c.require(left.empty(), "files were written although unpacking failed");
        c.label(odd ? "unknown kind" : matches ? "several members of the name" : "no member of the name");
    } else {
        c.require(r[0].is_none(), "unpacking fails: %s", r[0].is_none() ? "" : r[0].cast<std::string>().c_str());
        c.require(left.size() == 1 && left.count(out) == 1, "%zu files were unpacked, or under another name", left.size());
        c.require(left[out] == p.wanted, "the file unpacked has %zu bytes, other than the %zu of the member", left[out].size(), p.wanted.size());
        c.label(kind);
    }
    c.nontrivial = py::len(p.members) > 1;
}

static void fetching(Case &c) {
    Gen &g = c.g;
    c.label("download");
    bool query;
    const std::string file = word(g) + "." + KINDS[g.pick(3)], url = address(g, file, query), data = content(g);
    c.describe("%s of %zu bytes", url.c_str(), data.size());
    const py::tuple r = get("fetch")(*module, scratch(), url, py::bytes(data));
    c.require(r[0].is_none(), "downloading fails: %s", r[0].is_none() ? "" : r[0].cast<std::string>().c_str());
    c.require(!r[3].is_none() && r[3].cast<std::string>() == file, "the file was not reported under its name");
    const auto left = filesOf(r[1]);
    c.require(left.size() == 1 && left.count(file) == 1, "%zu files after the download", left.size());
    c.require(left.at(file) == data, "the file has %zu bytes, other than the %zu downloaded", left.at(file).size(), data.size());
    // percentages never fall, and the last one says that all is there
    const std::string said = r[2].cast<std::string>();
    double last = -1;
    for (size_t at = said.find('%'); at != std::string::npos; at = said.find('%', at + 1)) {
        size_t b = at;
        while (b > 0 && (said[b - 1] == ' ' || said[b - 1] == '.' || isdigit((unsigned char)said[b - 1]))) b--;
        const std::string number = said.substr(b, at - b);
        if (number.find_first_of("0123456789") == std::string::npos) continue;
        const double v = atof(number.c_str());
        c.require(v >= last && v <= 100, "the progress goes from %g to %g", last, v);
        last = v;
    }
    c.require(last < 0 || data.empty() || last == 100, "the progress ends at %g", last);
    c.nontrivial = data.size() > 1024;
}

static void whole(Case &c) {
    Gen &g = c.g;
    c.label("all of a list");
    const int n = (int)g.integer(1, 3);
    const std::string folder = "d_" + word(g);
    const bool made = g.chance(0.4);
    py::list items;
    std::map<std::string, std::string> want;
    for (int k = 0; k < n; k++) {
        const Packed p = members(g, 1);
        const char *kind = KINDS[g.pick(3)];
        bool query;
        const std::string file = "a" + std::to_string(k) + word(g) + "." + kind, name = "n" + std::to_string(k) + word(g);
        const std::string data = get("pack")(kind, p.members).cast<std::string>(), url = address(g, file, query);
        items.append(py::make_tuple(name, url, p.target, py::bytes(data)));
        want[folder + "/" + name + p.target.substr(p.target.rfind('.'))] = p.wanted;
    }
    c.describe("%d archives into %s", n, folder.c_str());
    const py::tuple r = get("everything")(*module, scratch(), items, folder, made);
    c.require(r[0].is_none(), "it fails: %s", r[0].is_none() ? "" : r[0].cast<std::string>().c_str());
    const auto left = filesOf(r[1]);
    for (const auto &w : want) {
        auto it = left.find(w.first);
        c.require(it != left.end(), "%s is missing", w.first.c_str());
        c.require(it->second == w.second, "%s holds something else", w.first.c_str());
    }
    c.require(left.size() == want.size(), "%zu files are left instead of %zu", left.size(), want.size());
    c.nontrivial = true;
}

static void prop(Case &c) {
    c.require(broken.empty(), "the program cannot be loaded: %s", broken.c_str());
    try {
        switch (c.g.weighted({ 2, 1, 3, 2, 2 })) {
            case 0: return names(c);
            case 1: return bars(c);
            case 2: return unpacking(c);
            case 3: return fetching(c);
            default: return whole(c);
        }
    } catch (py::error_already_set &e) {
        const std::string why = e.what();
        c.fail("Python raises %s", why.substr(0, 300).c_str());
    }
}

int main(int argc, char **argv) {
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    if (getenv("PBT_REEXEC")) startPython();
    pbt::Config cfg;
    cfg.id = "P35";
    cfg.rule = "random addresses, archives, contents and lists, with the network replaced by a table and files in a scratch folder; "
               "non-trivial: an address with a query, a bar that has begun, an archive of several members, a download of several blocks, or a whole list";
    cfg.prop = prop;
    cfg.quickCases = 30000;
    cfg.thoroughCases = 400000;
    cfg.assumptions = { "a table in place of the network; archive members other than the one looked for do not contain its name" };
    return pbt::run(cfg, argc, argv);
}
