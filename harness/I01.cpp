// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Io/TypeToH5.cpp
// PBT-LIBS: hdf5
// PBT-QUICK: 20000
// PBT-THOROUGH: 900000
// PBT-RULE: a case writes 1..8 values of generated types (41 types) and contents (extremes, infinities, NaN payloads, empty containers, zero-size matrices) under flat and nested labels,
// PBT-RULE: closes and reopens the file and reads everything in another order into used targets; non-trivial = at least three labels, one of them with two or more elements
#include "iong.h"

static std::string newLabel(pbt::Ctx& c, const std::vector<std::string>& groups, std::set<std::string>& used)
{
	std::string g = c.pick(groups), l;
	do {
		l = g;
		size_t n = c.skew(1, 12);
		for (size_t i = 0; i < n; ++i)
			l += c.pickOf<char>({ 'a', 'b', 'X', '_', '0', ' ', '.', '-' });
		l += static_cast<char>('a' + used.size());
	} while (used.count(l));
	used.insert(l);
	return l;
}

static std::vector<std::string> mkGroups(pbt::Ctx& c, IoNg::Out& out, std::set<std::string>& used)
{
	std::vector<std::string> groups { "" };
	size_t                   n = c.skew(0, 3);
	for (size_t i = 0; i < n; ++i) {
		std::string g = newLabel(c, groups, used);
		out.createGroup(g);
		groups.push_back(g + "/");
	}
	return groups;
}

static void closeOut(pbt::Ctx& c, std::unique_ptr<IoNg::Out>& out)
{
	if (c.chance(1, 4))
		out->flush();
	if (c.flip())
		out->close();
	out.reset();
}

PROP(roundTrip, 6)
{
	QuietCerr   quiet;
	std::string file = pbt::scratch() + "/a.h5";
	std::set<std::string> used;
	std::unique_ptr<IoNg::Out> out(new IoNg::Out(file, IoNg::ACC_TRUNC));
	CHECK(out->filename() == file, "filename() of an open output file");
	std::vector<std::string> groups = mkGroups(c, *out, used);
	size_t n = c.skew(1, 8);
	std::vector<std::pair<std::string, PVal>> all;
	bool big = false;
	for (size_t i = 0; i < n; ++i) {
		std::string l = newLabel(c, groups, used);
		PVal        v = genVal(c);
		DESC(v->type << " with " << v->weight() << " elements under \"" << l << "\"; ");
		c.label(v->type);
		c.labelIf(v->weight() == 0, "empty value");
		big = big || v->weight() >= 2;
		v->write(*out, l, IoNgSerializer::NO_OVERWRITE);
		all.push_back({ l, v });
		if (c.chance(1, 8))
			v->checkS(out->serializer(), l, c, "before closing");
	}
	closeOut(c, out);
	if (n >= 3 && big)
		c.nontrivial();
	IoNg::In in(file);
	CHECK(in.filename() == file, "filename() of an open input file");
	size_t reads = n + c.below(3);
	size_t start = c.below(n);
	for (size_t i = 0; i < reads; ++i) {
		auto& x = all[(start + i) % n];
		if (c.chance(1, 4)) {
			std::string absent = x.first + "Q";
			CHECK(!x.second->readable(in, absent), "reading the absent label " << absent << " was not an error");
		}
		x.second->check(in, x.first, c, "after reopening");
	}
	in.close();
	if (c.chance(1, 4)) { // the same reader on another file and back
		std::string other = pbt::scratch() + "/b.h5";
		{
			IoNg::Out out2(other, IoNg::ACC_TRUNC);
			all[0].second->write(out2, "z", IoNgSerializer::NO_OVERWRITE);
		}
		in.open(other);
		all[0].second->check(in, "z", c, "in a second file");
		CHECK(!all[0].second->readable(in, all[0].first), "label of another file found");
		in.close();
		in.open(file);
		all[0].second->check(in, all[0].first, c, "in the first file again");
	}
}

// which conversions reading allows: from real to complex, and nothing else
PROP(conversions, 1)
{
	QuietCerr   quiet;
	std::string file = pbt::scratch() + "/a.h5";
	std::vector<double> d;
	std::vector<Cplx>   z;
	std::vector<int>    k;
	gen(c, d);
	gen(c, z);
	gen(c, k);
	d.push_back(1);
	z.push_back(1);
	k.push_back(1);
	DESC("vectors of " << d.size() << " reals, " << z.size() << " complex and " << k.size() << " integers");
	c.nontrivial();
	{
		IoNg::Out out(file, IoNg::ACC_TRUNC);
		out.write(d, "d");
		out.write(z, "z");
		out.write(k, "k");
	}
	{
		IoNg::In          in(file);
		std::vector<Cplx> zz;
		gen(c, zz);
		in.read(zz, "d");
		CHECK(zz.size() == d.size(), "reals read as complex: size " << zz.size() << " instead of " << d.size());
		for (size_t i = 0; i < d.size(); ++i)
			CHECK(bitEq(zz[i].real(), d[i]) && bitEq(zz[i].imag(), 0.0), "reals read as complex: element " << i);
		std::vector<double> dd;
		std::vector<int>    kk;
		std::string         what;
		switch (c.below(5)) {
		case 0:
			CHECK(pbt::throws([&]() { in.read(dd, "z"); }), "complex read as real");
			break;
		case 1:
			CHECK(pbt::throws([&]() { in.read(kk, "z"); }), "complex read as integers");
			break;
		case 2:
			CHECK(pbt::throws([&]() { in.read(kk, "d"); }), "reals read as integers");
			break;
		case 3:
			CHECK(pbt::throws([&]() { in.read(dd, "k"); }), "integers read as reals");
			break;
		default:
			CHECK(pbt::throws([&]() { in.read(zz, "k"); }), "integers read as complex");
		}
		in.read(kk, "k");
		CHECK(bitEq(kk, k), "integers after a refused conversion");
	}
	IoNg::Out again(file, IoNg::ACC_TRUNC); // nothing may keep the file open
	again.write(k, "k");
}

// containers of pointers, pairs of objects
PROP(pointers, 1)
{
	QuietCerr   quiet;
	std::string file = pbt::scratch() + "/a.h5";
	std::vector<Matrix<double>> v;
	gen(c, v);
	std::vector<Matrix<double>*> p;
	for (auto& x : v)
		p.push_back(&x);
	std::vector<bool> b;
	gen(c, b);
	std::vector<bool> ones(c.below(600), true);
	DESC(v.size() << " matrices by pointer, " << b.size() << " booleans");
	if (v.size() > 1)
		c.nontrivial();
	{
		IoNg::Out out(file, IoNg::ACC_TRUNC);
		out.write(p, "p");
		out.write(b, "b");
		out.write(ones, "b2");
	}
	IoNg::In                    in(file);
	std::vector<Matrix<double>> w;
	gen(c, w);
	in.read(w, "p");
	CHECK(bitEq(v, w), "matrices written through pointers");
	std::vector<bool> b2;
	gen(c, b2);
	in.read(b2, "b");
	CHECK(b == b2, "booleans");
	in.read(b2, "b2");
	CHECK(b2 == ones, ones.size() << " true booleans");
}

PBT_MAIN
