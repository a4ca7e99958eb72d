// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Io/TypeToH5.cpp
// PBT-LIBS: hdf5
// PBT-QUICK: 9000
// PBT-THOROUGH: 600000
// PBT-RULE: a case is a history of 5..45 operations (create a group, write, write over without permission, overwrite with another size or type, overwrite an absent label, append a vector entry, flush, read back,
// PBT-RULE: close and reopen with any mode) on one file, compared with a map from label to last value; non-trivial = at least one successful overwrite and one reopening that keeps contents
#include "iong.h"

struct Machine {
	pbt::Ctx&                   c;
	std::string                 file = pbt::scratch() + "/h.h5";
	std::unique_ptr<IoNg::Out>  out;
	std::map<std::string, PVal> model;
	struct Entries {
		size_t n;
		PVal   last;
		std::vector<PVal> all;
	};
	std::map<std::string, Entries> entries;
	std::set<std::string>          groups;
	size_t                         overwrites = 0, reopens = 0, serial = 0;
	bool                           writable = true;

	Machine(pbt::Ctx& c_)
	    : c(c_)
	{
		unlink(file.c_str());
		if (c.chance(1, 3))
			out.reset(new IoNg::Out(file, IoNg::ACC_EXCL));
		else
			out.reset(new IoNg::Out(file, IoNg::ACC_TRUNC));
	}

	template <typename M> std::string anyKey(const M& m)
	{
		auto it = m.begin();
		std::advance(it, c.below(m.size()));
		return it->first;
	}

	std::string fresh()
	{
		std::string l;
		if (!groups.empty() && c.flip()) {
			auto it = groups.begin();
			std::advance(it, c.below(groups.size()));
			l = *it + "/";
		}
		return l + "v" + std::to_string(serial++);
	}

	void verify(const std::string& l, const std::string& when) { model[l]->checkS(out->serializer(), l, c, when); }

	void verifyAll(IoNg::In& in, const std::string& when)
	{
		for (auto& x : model)
			x.second->check(in, x.first, c, when);
		for (auto& e : entries) {
			SizeType n = 0;
			in.read(n, e.first + "/Size");
			CHECK(n == e.second.n, when << ": " << e.first << " counts " << n << " entries instead of " << e.second.n);
			e.second.last->checkLast(in, e.first, c, when);
			for (size_t i = 0; i < e.second.n; ++i)
				e.second.all[i]->check(in, e.first + "/" + std::to_string(i), c, when);
		}
		for (auto& g : groups)
			CHECK(in.serializer().doesGroupExist(g), when << ": group " << g << " disappeared");
		PVal probe = genVal(c);
		CHECK(!probe->readable(in, "absent"), when << ": a label that was never written can be read");
		CHECK(!in.serializer().doesGroupExist("absent"), when << ": a group that was never created exists");
	}

	void readBack(const std::string& when)
	{
		IoNg::In in(file);
		verifyAll(in, when);
	}

	void write()
	{
		std::string l = fresh();
		PVal        v = genVal(c);
		c.log << "write " << v->type << " " << l << "; ";
		if (v->isReturning() && c.flip()) {
			bool b = v->writeReturning(*out, l, IoNgSerializer::NO_OVERWRITE);
			CHECK(b == writable, "write of a new label returned " << b);
		} else {
			bool t = pbt::throws([&]() { v->write(*out, l, IoNgSerializer::NO_OVERWRITE); });
			CHECK(!(t && writable), "write of a new label threw");
		}
		if (writable)
			model[l] = v;
	}

	void clobber() // writing over without permission changes nothing
	{
		if (model.empty())
			return write();
		std::string l = anyKey(model);
		PVal        v = c.flip() ? model[l]->another(c) : genVal(c);
		c.log << "write again " << v->type << " " << l << "; ";
		c.label("refused write");
		if (v->isReturning() && c.flip())
			CHECK(!v->writeReturning(*out, l, IoNgSerializer::NO_OVERWRITE), "write over " << l << " without permission succeeded");
		else {
			bool t = pbt::throws([&]() { v->write(*out, l, IoNgSerializer::NO_OVERWRITE); });
			CHECK(t || v->kind == Val::DATASET, "write of " << v->type << " over " << l << " without permission was not refused");
		}
		verify(l, "after a refused write");
	}

	void overwrite()
	{
		if (model.empty())
			return write();
		std::string l   = anyKey(model);
		PVal        old = model[l], v = old->another(c);
		if (old->kind == Val::DATASET && c.flip()) // another type, also stored as one dataset
			for (int i = 0; i < 5 && (v->type == old->type); ++i) {
				PVal w = genVal(c);
				if (w->kind == Val::DATASET)
					v = w;
			}
		c.log << "overwrite " << v->type << " " << l << "; ";
		bool viaObject = v->hasObjectOverwrite() && c.flip();
		bool t = pbt::throws([&]() {
			if (viaObject)
				v->object_overwrite(*out, l);
			else
				v->write(*out, l, IoNgSerializer::ALLOW_OVERWRITE);
		});
		if (!writable) {
			verify(l, "after overwriting in a read-only file");
			return;
		}
		if (!v->canOverwrite) {
			c.label("overwriting not supported");
			CHECK(t, "overwriting " << v->type << " is not supported but was not refused");
		} else {
			CHECK(!t, "overwriting " << v->type << " " << l << " threw");
			model[l] = v;
			++overwrites;
			c.labelIf(v->type != old->type, "overwrite with another type");
		}
		verify(l, "after overwriting");
	}

	void overwriteAbsent()
	{
		std::string l = fresh();
		PVal        v = genVal(c);
		c.log << "overwrite absent " << v->type << " " << l << "; ";
		if (std::string(v->type).substr(0, 7) == "vector<" && v->hasObjectOverwrite() && c.flip()) {
			CHECK(pbt::throws([&]() { v->object_overwrite(*out, l); }), "overwrite() of an absent vector of objects was not refused");
			return;
		}
		bool t = pbt::throws([&]() { v->write(*out, l, IoNgSerializer::ALLOW_OVERWRITE); });
		if (!writable)
			return;
		CHECK(t != v->canOverwrite, "overwriting an absent label with " << v->type << (t ? " threw" : " did not throw"));
		if (v->canOverwrite) {
			model[l] = v;
			verify(l, "after overwriting an absent label");
		}
	}

	void append()
	{
		std::string l;
		if (entries.empty() || c.chance(1, 4)) {
			if (!writable)
				return;
			l = fresh();
			PVal v;
			switch (c.below(4)) {
			case 0: v = mkv<double>(c, "double", Val::DATASET, true); break;
			case 1: v = mkv<std::vector<double>>(c, "vector<double>", Val::DATASET, true); break;
			case 2: v = mkv<std::vector<Cplx>>(c, "vector<complex<double>>", Val::DATASET, true); break;
			default: v = mkv<std::vector<int>>(c, "vector<int>", Val::DATASET, true);
			}
			entries[l] = Entries { 0, v, {} };
		} else {
			l = anyKey(entries);
		}
		Entries& e = entries[l];
		PVal     v = e.last->another(c);
		c.log << "append " << v->type << " entry " << e.n << " of " << l << "; ";
		bool t = pbt::throws([&]() { v->vectorEntry(*out, l, e.n); });
		if (!writable)
			return;
		CHECK(!t, "writeVectorEntry threw");
		e.last = v;
		e.all.push_back(v);
		++e.n;
		c.label("vector entry");
		if (c.chance(1, 60)) { // many more of them
			pbt::Ctx::Bulk b(c);
			unsigned       many = c.range(5, 130);
			c.log << "and " << many << " more; ";
			for (unsigned i = 0; i < many; ++i) {
				v = e.last->another(c);
				CHECK(!pbt::throws([&]() { v->vectorEntry(*out, l, e.n); }), "writeVectorEntry threw for entry " << e.n);
				e.last = v;
				e.all.push_back(v);
				++e.n;
			}
			c.label("many vector entries");
		}
	}

	void group()
	{
		if (!groups.empty() && c.chance(1, 3)) {
			std::string g = *groups.begin();
			c.log << "create group " << g << " again; ";
			CHECK(pbt::throws([&]() { out->createGroup(g); }), "creating the group " << g << " twice was not refused");
			return;
		}
		std::string g = "g" + std::to_string(serial++);
		if (!groups.empty() && c.flip())
			g = *groups.rbegin() + "/" + g;
		c.log << "create group " << g << "; ";
		bool t = pbt::throws([&]() { out->createGroup(g); });
		CHECK(t != writable, "createGroup " << (t ? "threw" : "did not throw"));
		if (writable)
			groups.insert(g);
	}

	void orphan() // writing below a group that does not exist
	{
		PVal v = genVal(c);
		c.log << "write below an absent group; ";
		pbt::throws([&]() { v->write(*out, "nowhere/x", IoNgSerializer::NO_OVERWRITE); });
		CHECK(!out->serializer().doesGroupExist("nowhere"), "a refused write created its group");
	}

	void reopen()
	{
		bool byClose = c.flip();
		if (byClose)
			out->close();
		else
			out.reset();
		c.log << (byClose ? "close" : "destroy");
		auto openIt = [&](IoNg::OpenMode m) {
			if (out)
				out->open(file, m);
			else
				out.reset(new IoNg::Out(file, m));
		};
		if (c.flip()) {
			c.log << ", read all";
			readBack("after closing");
		}
		unsigned w = c.weighted({ 6, 2, 2, 2 });
		writable   = true;
		if (w == 1) {
			c.log << ", open exclusively";
			CHECK(pbt::throws([&]() { openIt(IoNg::ACC_EXCL); }), "exclusive creation of an existing file was not refused");
			c.label("refused open");
			readBack("after a refused exclusive creation");
			w = 0;
		}
		if (w == 0) {
			c.log << ", open for writing; ";
			openIt(IoNg::ACC_RDW);
			++reopens;
		} else if (w == 2) {
			c.log << ", open read-only; ";
			openIt(IoNg::ACC_RDONLY);
			writable = false;
			++reopens;
			c.label("read-only output");
		} else {
			c.log << ", truncate; ";
			if (c.flip())
				openIt(IoNg::ACC_TRUNC);
			else {
				unlink(file.c_str());
				CHECK(pbt::throws([&]() { openIt(IoNg::ACC_RDW); }), "opening an absent file for updating was not refused");
				if (c.flip())
					CHECK(pbt::throws([&]() { openIt(IoNg::ACC_RDONLY); }), "opening an absent file for reading was not refused");
				openIt(IoNg::ACC_EXCL);
			}
			for (auto& x : model)
				CHECK(!x.second->readableS(out->serializer(), x.first),
				      "label " << x.first << " survived truncation");
			model.clear();
			entries.clear();
			groups.clear();
			c.label("truncated");
		}
		CHECK(out->filename() == file, "filename() after reopening is " << out->filename());
	}

	void step()
	{
		if (!writable && c.chance(1, 3))
			return reopen();
		switch (c.weighted({ 7, 2, 7, 2, 3, 2, 1, 2, 2, 3 })) {
		case 0: return write();
		case 1: return clobber();
		case 2: return overwrite();
		case 3: return overwriteAbsent();
		case 4: {
			append();
			size_t more = c.chance(1, 8) ? c.skew(8, 30) : 0; // a long run of entries
			for (size_t i = 0; i < more; ++i)
				append();
			return;
		}
		case 5: return group();
		case 6: return orphan();
		case 7:
			c.log << "flush; ";
			out->flush();
			return;
		case 8:
			if (!model.empty()) {
				std::string l = anyKey(model);
				c.log << "read " << l << "; ";
				verify(l, "while writing");
			}
			return;
		default: return reopen();
		}
	}

	void finish()
	{
		if (c.flip())
			out->close();
		out.reset();
		readBack("at the end");
		if (overwrites > 0 && reopens > 0)
			c.nontrivial();
	}
};

PROP(history, 1)
{
	QuietCerr quiet;
	Machine   m(c);
	size_t    n = c.skew(5, 45);
	for (size_t i = 0; i < n; ++i)
		m.step();
	m.finish();
}

PBT_MAIN
