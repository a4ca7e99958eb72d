// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Io/TypeToH5.cpp
// PBT-LIBS: hdf5
// PBT-QUICK: 9000
// PBT-THOROUGH: 160000
// PBT-RULE: a case records every write and truncation the library makes while it writes 1..12 generated values to a new file, rebuilds the file as it was after a prefix of those calls (a kill at that point),
// PBT-RULE: or cuts a finished file, or makes a foreign or unmarked one, and opens it for reading; non-trivial = at least three values and one crash point strictly inside the history
#include "iong.h"
#include <dlfcn.h>
#include <sys/wait.h>

// ---------------------------------------------------------------- journal of file changes
struct Op {
	bool        trunc;
	off_t       at;
	std::string bytes;
};
static bool            recording = false;
static std::vector<Op> journal;

extern "C" ssize_t pwrite(int fd, const void* buf, size_t n, off_t at)
{
	typedef ssize_t (*F)(int, const void*, size_t, off_t);
	static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pwrite"));
	ssize_t  r    = real(fd, buf, n, at);
	if (recording && r > 0)
		journal.push_back(Op { false, at, std::string(static_cast<const char*>(buf), r) });
	return r;
}

extern "C" int ftruncate(int fd, off_t length)
{
	typedef int (*F)(int, off_t);
	static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "ftruncate"));
	int      r    = real(fd, length);
	if (recording && r == 0)
		journal.push_back(Op { true, length, "" });
	return r;
}

static void put(const std::string& file, const std::string& s)
{
	std::ofstream f(file, std::ios::binary | std::ios::trunc);
	f << s;
}

// a file name, now and then long or unusual
static std::string fileName(pbt::Ctx& c, std::string s)
{
	if (c.chance(1, 6))
		s += std::string(c.range(20, 200), 'n');
	if (c.chance(1, 12))
		s += c.pickOf<const char*>({ " x", ".txt", "#", "-1", ".h5.h5" });
	return pbt::scratch() + "/" + s + ".h5";
}

static std::string get(const std::string& file)
{
	std::ifstream     f(file, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

// the file as it was after the first k calls
static std::string imageAfter(size_t k)
{
	std::string s;
	for (size_t i = 0; i < k; ++i) {
		const Op& o = journal[i];
		if (o.trunc) {
			s.resize(o.at);
		} else {
			if (s.size() < o.at + o.bytes.size())
				s.resize(o.at + o.bytes.size());
			s.replace(o.at, o.bytes.size(), o.bytes);
		}
	}
	return s;
}

struct Written {
	std::vector<std::pair<std::string, PVal>> v;

	void one(pbt::Ctx& c, IoNg::Out& out, bool overwriteAllowed)
	{
		if (overwriteAllowed && !v.empty() && c.chance(1, 4)) {
			auto& x = v[c.below(v.size())];
			if (x.second->canOverwrite) {
				PVal w = x.second->another(c);
				w->write(out, x.first, IoNgSerializer::ALLOW_OVERWRITE);
				x.second = w;
				c.log << "overwrite " << x.first << "; ";
				return;
			}
		}
		std::string l = "v" + std::to_string(v.size());
		PVal        w = c.chance(1, 10) ? big(c) : genVal(c);
		w->write(out, l, IoNgSerializer::NO_OVERWRITE);
		c.log << "write " << w->type << "; ";
		v.push_back({ l, w });
	}

	static PVal big(pbt::Ctx& c)
	{
		auto p  = std::make_shared<ValT<std::vector<double>>>();
		p->type = "large vector<double>";
		p->kind = Val::DATASET;
		p->canOverwrite = true;
		p->v.assign(c.range(1000, 60000), c.unit());
		return p;
	}

	void check(pbt::Ctx& c, IoNg::In& in, const std::string& when) const
	{
		for (auto& x : v)
			x.second->check(in, x.first, c, when);
	}
};

static bool opens(pbt::Ctx& c, const std::string& file, std::unique_ptr<IoNg::In>& in)
{
	std::string good = pbt::scratch() + "/good.h5";
	bool        viaOpen = c.chance(1, 3);
	if (viaOpen) {
		struct stat st;
		if (stat(good.c_str(), &st) != 0) {
			IoNg::Out o(good, IoNg::ACC_TRUNC);
			o.write(1, "x");
		}
		in.reset(new IoNg::In(good));
		in->close();
	}
	bool t = pbt::throws([&]() {
		if (viaOpen)
			in->open(file);
		else
			in.reset(new IoNg::In(file));
	});
	if (t && viaOpen) { // the refusal leaves a reader that can be used for another file
		int x = 0;
		in->open(good);
		in->read(x, "x");
		CHECK(x == 1, "a value read after a refused file is " << x);
	}
	if (t)
		in.reset();
	return !t;
}

PROP(killedWriter, 4)
{
	QuietCerr   quiet;
	std::string file = fileName(c, "k"), victim = fileName(c, "v");
	unlink(file.c_str());
	journal.clear();
	recording = true;
	Written w;
	size_t  n = c.skew(1, 12), closing = 0;
	{
		IoNg::Out out(file, c.flip() ? IoNg::ACC_TRUNC : IoNg::ACC_EXCL);
		for (size_t i = 0; i < n; ++i)
			w.one(c, out, true);
		closing = journal.size();
		if (c.flip())
			out.close();
	}
	recording = false;
	CHECK(imageAfter(journal.size()) == get(file), "harness: the journal does not give the final file");
	size_t total = journal.size(), tries = 4;
	DESC("killed within " << total << " file changes, " << closing << " of them before closing: ");
	for (size_t t = 0; t < tries; ++t) {
		size_t k = c.below(total + 1);
		DESC(k << " ");
		put(victim, imageAfter(k));
		if (n >= 3 && k > 0 && k < total)
			c.nontrivial();
		c.label(k == total ? "complete" : k >= closing ? "killed while closing" : "killed before closing");
		std::unique_ptr<IoNg::In> in;
		bool                      o = opens(c, victim, in);
		CHECK(o || k < total, "a completely written file was refused");
		if (!o)
			continue;
		CHECK(k >= closing, "a file whose writer died before closing it was accepted");
		w.check(c, *in, "in a file accepted although its writer was killed");
	}
	if (c.chance(1, 4)) { // the interrupted file can be written anew
		IoNg::Out out(victim, IoNg::ACC_TRUNC);
		out.write(1, "x");
	}
}

// a flush is a checkpoint: what was written before it survives a kill before the next flush or close
PROP(flushed, 2)
{
	QuietCerr   quiet;
	std::string file = fileName(c, "k"), victim = fileName(c, "v");
	unlink(file.c_str());
	journal.clear();
	recording = true;
	Written w, later;
	size_t  n = c.skew(1, 10), m = c.skew(0, 6), after = 0, closing = 0;
	{
		IoNg::Out out(file, c.flip() ? IoNg::ACC_TRUNC : IoNg::ACC_EXCL);
		for (size_t i = 0; i < n; ++i) {
			w.one(c, out, true);
			if (c.chance(1, 6))
				out.flush();
		}
		out.flush();
		after = journal.size();
		out.createGroup("later");
		for (size_t i = 0; i < m; ++i) {
			PVal v = c.flip() ? Written::big(c) : genVal(c);
			v->write(out, "later/v" + std::to_string(i), IoNgSerializer::NO_OVERWRITE);
		}
		closing = journal.size();
	}
	recording = false;
	if (n >= 3)
		c.nontrivial();
	size_t k = c.range(after, closing);
	DESC("flush after " << n << " values, then " << m << " more, killed after change " << k << " of " << after << ".." << closing);
	put(victim, imageAfter(k));
	std::unique_ptr<IoNg::In> in;
	CHECK(opens(c, victim, in), "a flushed file was refused");
	w.check(c, *in, "in a flushed file whose writer was killed");
}

// a real process that really dies
PROP(realKill, 1)
{
	QuietCerr   quiet;
	std::string file = pbt::scratch() + "/r.h5";
	unlink(file.c_str());
	size_t n = c.skew(0, 6);
	bool   finish = c.flip();
	DESC(n << " values, then " << (finish ? "close and " : "") << "SIGKILL");
	c.nontrivial();
	IoNg::OpenMode mode = c.flip() ? IoNg::ACC_TRUNC : IoNg::ACC_EXCL;
	pid_t          pid = fork();
	if (pid == 0) {
		IoNg::Out out(file, mode);
		for (size_t i = 0; i < n; ++i)
			out.write(std::vector<double>(3 + i, i), "v" + std::to_string(i));
		if (finish)
			out.close();
		kill(getpid(), SIGKILL);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	std::unique_ptr<IoNg::In> in;
	bool                      o = opens(c, file, in);
	CHECK(o == finish, "a file whose writer " << (finish ? "closed it was refused" : "died was accepted"));
	for (size_t i = 0; i < n && o; ++i) {
		std::vector<double> x;
		in->read(x, "v" + std::to_string(i));
		CHECK(x == std::vector<double>(3 + i, i), "value " << i);
	}
}

PROP(cut, 2)
{
	QuietCerr   quiet;
	std::string file = fileName(c, "k"), victim = fileName(c, "v");
	Written     w;
	size_t      n = c.skew(1, 8);
	{
		IoNg::Out out(file, IoNg::ACC_TRUNC);
		for (size_t i = 0; i < n; ++i)
			w.one(c, out, true);
	}
	std::string s = get(file);
	if (n >= 3)
		c.nontrivial();
	for (int t = 0; t < 6; ++t) {
		size_t k = c.flip() ? s.size() - 1 - c.skew(0, s.size() - 1) : c.below(s.size());
		DESC("cut at " << k << " of " << s.size() << " bytes; ");
		put(victim, s.substr(0, k));
		std::unique_ptr<IoNg::In> in;
		CHECK(!opens(c, victim, in), "a file cut at " << k << " of " << s.size() << " bytes was accepted");
	}
	std::unique_ptr<IoNg::In> in;
	CHECK(opens(c, file, in), "the complete file was refused");
	w.check(c, *in, "in the complete file");
}

PROP(foreign, 2)
{
	QuietCerr   quiet;
	std::string victim = pbt::scratch() + "/f.h5";
	unlink(victim.c_str());
	switch (c.below(4)) {
	case 0: {
		std::string s;
		size_t      n = c.skew(0, 400);
		for (size_t i = 0; i < n; ++i)
			s += static_cast<char>(c.below(256));
		if (c.flip())
			s = std::string("\x89HDF\r\n\x1a\n") + s;
		put(victim, s);
		DESC("arbitrary bytes");
		break;
	}
	case 1:
		DESC("absent file");
		break;
	default: { // an HDF5 file without a live canary
		H5::H5File f(victim, H5F_ACC_TRUNC);
		if (c.chance(1, 5)) {
			DESC("no Def group");
			break;
		}
		f.createGroup("Def");
		hsize_t dims[2] = { 1, 1 };
		if (c.chance(1, 5)) {
			DESC("no canary");
			break;
		}
		unsigned   kind = c.weighted({ 6, 1, 1 });
		unsigned   value = c.flip() ? c.below(256) : c.pickOf({ 85u, 0u, 1u, 169u, 171u, 255u, 42u });
		if (kind == 0 && value == 170)
			value = 85;
		dims[0] = (kind == 2) ? 3 : 1;
		DESC("canary " << value << (kind == 1 ? " with two dimensions" : kind == 2 ? " of three bytes" : ""));
		H5::DataSpace space(kind == 1 ? 2 : 1, dims);
		H5::DataSet   d      = f.createDataSet("/Def/Canary", H5::PredType::NATIVE_UCHAR, space);
		unsigned char buf[3] = { static_cast<unsigned char>(value), 170, 170 };
		d.write(buf, H5::PredType::NATIVE_UCHAR);
		c.nontrivial();
	}
	}
	std::unique_ptr<IoNg::In> in;
	CHECK(!opens(c, victim, in), "the file was accepted");
	// the refused file is not kept open: it can be created anew
	{
		IoNg::Out out(victim, IoNg::ACC_TRUNC);
		out.write(42, "x");
	}
	IoNg::In again(victim);
	int      x = 0;
	again.read(x, "x");
	CHECK(x == 42, "a file written after a refusal");
}

PBT_MAIN
