// C26: importing a document builds exactly the net that the document describes.
// The documents are written here, in many spellings, not by the exporter.
#include "netgen.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
#include <thread>
#include <unistd.h>

const char *vh_property = "C26";
using namespace api;

namespace
{
//! The code points of UTF-8 text; empty if it is not, or has characters XML has not.
std::vector<uint32_t> decode(const std::string &s)
{
	std::vector<uint32_t> v;
	for (size_t i = 0; i < s.size();)
	{
		const unsigned char c = (unsigned char)s[i];
		const int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
		if (n == 0 || i + (size_t)n > s.size()) return {};
		uint32_t cp = n == 1 ? c : c & (0x7Fu >> n);
		for (int k = 1; k < n; ++k)
		{
			const unsigned char d = (unsigned char)s[i + (size_t)k];
			if ((d & 0xC0) != 0x80) return {};
			cp = cp << 6 | (d & 63);
		}
		if (cp < 32 && cp != 9 && cp != 10 && cp != 13) return {};
		v.push_back(cp);
		i += (size_t)n;
	}
	return v;
}
std::string utf8(const std::vector<uint32_t> &v)
{
	std::string s;
	for (uint32_t c : v)
		if (c < 0x80) s += (char)c;
		else if (c < 0x800) (s += (char)(0xC0 | c >> 6)) += (char)(0x80 | (c & 63));
		else if (c < 0x10000) ((s += (char)(0xE0 | c >> 12)) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
		else (((s += (char)(0xF0 | c >> 18)) += (char)(0x80 | (c >> 12 & 63))) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
	return s;
}

enum Encoding
{
	UTF8,
	UTF8_BOM,
	LATIN1,
	UTF16LE,
	UTF16BE,
	ENCODINGS
};
const char *const encodingNames[] = { "utf8", "utf8_bom", "latin1", "utf16le", "utf16be" };

class Writer
{
public:
	Writer(Rng &r, Encoding e)
	: m_r(r)
	, m_enc(e)
	, m_plain(r.chance(1, 4))
	{
	}

	std::string text(const std::string &s, char quote)
	{
		std::ostringstream o;
		for (uint32_t c : decode(s))
		{
			const bool must = c == '&' || c == '<' || c == (uint32_t)(unsigned char)quote || c == 9 || c == 10 || c == 13 || (m_enc == LATIN1 && c > 255);
			if (must || (!m_plain && m_r.chance(1, 15)))
			{
				const char *named = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr;
				if (named && m_r.chance(2, 3)) o << named;
				else if (m_r.chance(1, 2)) o << "&#" << std::dec << c << ";";
				else if (m_r.chance(1, 2)) o << "&#x" << std::hex << c << ";";
				else o << "&#x" << std::hex << std::uppercase << c << std::nouppercase << ";";
			}
			else
				o << utf8({ c });
		}
		return o.str();
	}

	std::string space() { return m_plain ? "" : m_r.chance(1, 3) ? "\n" : m_r.chance(1, 3) ? "\r\n\t" : m_r.chance(1, 3) ? "  " : ""; }

	//! Things that may stand between elements and mean nothing.
	void between(std::string &o)
	{
		o += space();
		if (m_plain || !m_r.chance(1, 12)) return;
		switch (m_r.below(3))
		{
		case 0: o += "<!-- <Place name=\"not this one\"/> -->"; break;
		case 1: o += "<!---->"; break;
		default: o += "<?tool \"<Arc/>\"?>"; break;
		}
		o += space();
	}

	using Attrs = std::vector<std::pair<std::string, std::string>>;
	void open(std::string &o, const std::string &tag, Attrs a)
	{
		between(o);
		m_r.shuffle(a);
		o += "<" + tag;
		for (auto &[k, v] : a)
		{
			const char q = m_r.chance(1, 2) ? '"' : '\'';
			const char *const gap[] = { " ", "  ", "\n\t" };
			o += gap[m_plain ? 0 : m_r.below(3)] + k + (m_plain || m_r.chance(2, 3) ? "=" : " = ") + q + text(v, q) + q;
		}
	}
	void leaf(std::string &o, const std::string &tag, Attrs a)
	{
		open(o, tag, std::move(a));
		if (m_r.chance(1, 2)) o += m_r.chance(1, 2) ? "/>" : " />";
		else o += ">" + space() + "</" + tag + ">";
	}
	void element(std::string &o, const std::string &tag, const Attrs &a, const std::string &inner)
	{
		if (inner.empty()) return leaf(o, tag, a);
		open(o, tag, a);
		o += ">" + inner;
		between(o);
		o += "</" + tag + ">";
	}

	std::string number(size_t n) { return (m_plain || !m_r.chance(1, 12) ? "" : std::string(1 + m_r.below(4), '0')) + std::to_string(n); }

	std::string encode(const std::string &u) const
	{
		if (m_enc == UTF8) return u;
		if (m_enc == UTF8_BOM) return "\xEF\xBB\xBF" + u;
		std::string o;
		auto unit = [&](uint32_t x)
		{
			const char hi = (char)(x >> 8), lo = (char)(x & 255);
			if (m_enc == UTF16LE) (o += lo) += hi;
			else (o += hi) += lo;
		};
		if (m_enc != LATIN1) unit(0xFEFF);
		for (uint32_t c : decode(u))
			if (m_enc == LATIN1) o += (char)c;
			else if (c < 0x10000) unit(c);
			else
			{
				unit(0xD800 + ((c - 0x10000) >> 10));
				unit(0xDC00 + ((c - 0x10000) & 1023));
			}
		return o;
	}

	Rng &m_r;
	const Encoding m_enc;
	const bool m_plain;
};

//! What is left to the document: the rest is in the engine already.
struct Part
{
	std::set<std::string> places, transitions;
};

struct Stats
{
	int inlineArcs = 0, listedArcs = 0, bidirectional = 0, defaults = 0;
};

std::string document(const Model &m, const Part &part, Writer &w, Stats &st)
{
	Rng &r = w.m_r;
	using Attrs = Writer::Attrs;
	auto join = [&](std::vector<std::string> v, bool ordered = false)
	{
		if (!ordered) r.shuffle(v);
		std::string s;
		for (auto &x : v) s += x;
		return s;
	};
	std::vector<std::string> places, transitions, arcs;
	for (auto &[n, p] : m.places)
	{
		if (!part.places.contains(n)) continue;
		Attrs a{ { "name", n } };
		auto optional = [&](const char *key, const std::string &value, bool isDefault)
		{
			if (isDefault && r.chance(1, 2))
			{
				++st.defaults;
				if (r.chance(1, 2)) a.push_back({ key, "" });
				return;
			}
			a.push_back({ key, value });
		};
		optional("tokens", w.number(p.tokens), p.tokens == 0);
		optional("input", p.input ? "true" : "false", !p.input);
		optional("onEnterAction", p.enterName, p.enterName.empty());
		optional("onExitAction", p.exitName, p.exitName.empty());
		if (!w.m_plain && r.chance(1, 10)) a.push_back({ "remark", "tokens=\"77\"" });
		std::string s;
		w.leaf(s, "Place", a);
		places.push_back(s);
	}
	auto arc = [&](const std::string &p, const std::string &t, size_t weight, const char *type)
	{
		std::vector<std::string> v(4);
		w.leaf(v[0], "Place", { { "value", p } });
		w.leaf(v[1], "Transition", { { "value", t } });
		w.leaf(v[2], "Weight", { { "value", w.number(weight) } });
		w.leaf(v[3], "Type", { { "value", type } });
		std::string s;
		w.element(s, "Arc", {}, join(v));
		arcs.push_back(s);
		++st.listedArcs;
	};
	for (auto &[n, t] : m.trans)
	{
		const bool mine = part.transitions.contains(n);
		MArcs act = t.act, dest = t.dest;
		for (auto &[p, wt] : t.act)
		{
			auto d = dest.find(p);
			if (wt == 0 || d == dest.end() || d->second != wt || r.chance(1, 4)) continue;
			arc(p, n, wt, "Bidirectional");
			++st.bidirectional;
			act.erase(p);
			dest.erase(d);
		}
		const int style = (int)r.below(3); // all in the transition, all in the list, mixed
		auto section = [&](const MArcs &l, const char *tag, const char *item, const char *type) -> std::string
		{
			std::vector<std::string> in;
			for (auto &[p, wt] : l)
			{
				if (!mine || wt == 0 || style == 1 || (style == 2 && r.chance(1, 2)))
				{
					arc(p, n, wt, type);
					continue;
				}
				Attrs a{ { "name", p } };
				if (wt != 1 || r.chance(1, 2)) a.push_back({ "weight", w.number(wt) });
				else if (r.chance(1, 2)) a.push_back({ "weight", "" });
				if (wt == 1) ++st.defaults;
				std::string s;
				w.leaf(s, item, a);
				in.push_back(s);
				++st.inlineArcs;
			}
			std::string s;
			if (!in.empty() || r.chance(1, 3)) w.element(s, tag, {}, join(in));
			return s;
		};
		std::vector<std::string> inner(6);
		inner[0] = section(act, "ActivationPlaces", "ActivationPlace", "Activation");
		inner[1] = section(dest, "DestinationPlaces", "DestinationPlace", "Destination");
		inner[2] = section(t.inh, "InhibitorPlaces", "InhibitorPlace", "Inhibitor");
		if (!mine) continue;
		w.leaf(inner[3], "Name", { { "value", n } });
		w.leaf(inner[4], "RequireNoActionsInExecution", { { "value", t.reqNo ? "true" : "false" } });
		std::vector<std::string> conds;
		for (auto &cn : t.condNames)
		{
			std::string s;
			w.leaf(s, "ActivationCondition", { { "name", cn } });
			conds.push_back(s);
		}
		if (!conds.empty() || r.chance(1, 2)) w.element(inner[5], "ActivationConditions", {}, join(conds, true));
		std::string s;
		w.element(s, "Transition", {}, join(inner));
		transitions.push_back(s);
	}
	std::vector<std::string> sections(3);
	auto whole = [&](std::string &s, const char *tag, const std::vector<std::string> &v)
	{
		if (!v.empty() || r.chance(2, 3)) w.element(s, tag, {}, join(v));
	};
	whole(sections[0], "Places", places);
	whole(sections[1], "Transitions", transitions);
	whole(sections[2], "Arcs", arcs);
	std::string o;
	const char *const enc[] = { "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16" };
	if (w.m_enc == LATIN1 || r.chance(3, 4)) o += std::string("<?xml version=\"1.0\"") + (w.m_enc == LATIN1 || r.chance(1, 2) ? std::string(" encoding=\"") + enc[w.m_enc] + "\"" : "") + (r.chance(1, 4) ? " standalone=\"no\" " : "") + "?>";
	w.between(o);
	Attrs root{ { "actionsThreadOption", "" } };
	static const char *const modes[] = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
	for (int i = 0; i < 4; ++i)
		if (std::string(game::modeName(m.mode)) == modes[i]) root[0].second = modes[i];
	if (root[0].second.empty()) vh::error("no name for the thread option");
	if (r.chance(2, 3)) root.push_back({ "version", "3.0" });
	if (r.chance(2, 3)) root.push_back({ "format", "1" });
	if (r.chance(2, 3)) root.push_back({ "name", "blah" });
	w.element(o, "PTN-Engine", root, join(sections));
	if (r.chance(1, 2)) w.between(o);
	return w.encode(o);
}

struct Job
{
	std::unique_ptr<Api> a, b; //!< the net described, the engine into which it is imported
	Model want;
	Part part;
	std::string file, doc;
	std::unique_ptr<ptne::IFileImporter> own;
	Encoding enc = UTF8;
	Stats st;
};

bool representable(const Model &m)
{
	auto ok = [](const std::string &s) { return s.empty() || !decode(s).empty(); };
	for (auto &[n, p] : m.places)
		if (!ok(n)) return false;
	for (auto &[n, t] : m.trans)
		if (!ok(n)) return false;
	for (auto &[n, id] : m.actions)
		if (!ok(n)) return false;
	for (auto &[n, id] : m.conditions)
		if (!ok(n)) return false;
	return true;
}

void prepare(Job &j, Rng &r, const std::string &file)
{
	do
	{
		j.a = std::make_unique<Api>((Mode)r.below(4));
		makeNet(*j.a, r, r.chance(1, 2));
	} while (!representable(j.a->m));
	j.b = twin(*j.a, r, j.want);
	Api &a = *j.a, &b = *j.b;
	for (auto &[n, p] : a.m.places) j.part.places.insert(n);
	for (auto &[n, t] : a.m.trans) j.part.transitions.insert(n);
	bool transitionsThere = false;
	if (r.chance(1, 4))
	{
		// a part of the net is there already
		for (auto &[n, p] : a.m.places)
			if (r.chance(1, 3))
			{
				b.createPlace(n, p.tokens, p.input, p.enterName, p.exitName, false, false);
				j.part.places.erase(n);
			}
		for (auto &[n, t] : a.m.trans)
			if (r.chance(1, 3))
			{
				b.createTransition(n, {}, {}, {}, t.condNames, 0, t.reqNo);
				j.part.transitions.erase(n);
				transitionsThere = true;
			}
		vh::count("imports_into_a_part_of_the_net");
	}
	if (r.chance(1, 4))
	{
		// something else is there
		for (int i = 0; i < 3; ++i)
		{
			const std::string n = "something else " + std::to_string(i);
			b.createPlace(n, r.below(5), r.chance(1, 2), "", "", false, false);
			j.want.places[n] = b.m.places[n];
		}
		b.createTransition("something else", { { "something else 0", 2 } }, { { "something else 1", 3 } }, { { "something else 2", 1 } }, {}, 0, true);
		j.want.trans["something else"] = b.m.trans["something else"];
		transitionsThere = true;
		vh::count("imports_into_another_net");
	}
	if (!transitionsThere && r.chance(1, 8))
	{
		b.setMode(Mode::JOB_QUEUE);
		b.e->execute();
		vh::count("imports_into_a_running_engine");
	}
	j.enc = (Encoding)(r.chance(1, 3) ? UTF8 : r.below(ENCODINGS));
	Writer w(r, j.enc);
	j.doc = document(a.m, j.part, w, j.st);
	j.file = file;
	std::ofstream o(file, std::ios::binary);
	o << j.doc;
}

std::string shown(const Job &j)
{
	std::string s;
	for (char c : j.doc)
		if (c) s += c;
	return " importing (" + std::string(encodingNames[j.enc]) + ") " + s.substr(0, 6000);
}

void verify(Job &j, Rng &r)
{
	Api &b = *j.b;
	b.m = j.want;
	b.trail = shown(j);
	b.compare("after the import");
	vh::count("documents");
	vh::count(std::string("documents_") + encodingNames[j.enc]);
	vh::count("arcs_in_transitions", (uint64_t)j.st.inlineArcs);
	vh::count("arcs_in_the_list", (uint64_t)j.st.listedArcs);
	vh::count("bidirectional_arcs", (uint64_t)j.st.bidirectional);
	vh::count("values_by_default", (uint64_t)j.st.defaults);
}

//! The net built runs by the rules.
void drive(Job &j, Rng &r)
{
	Api &b = *j.b;
	for (int tries = 0; tries < 4 && !b.m.trans.empty(); ++tries)
	{
		auto it = std::next(b.m.trans.begin(), (long)r.below(b.m.trans.size()));
		for (auto &[n, t] : b.m.trans)
			if (!t.condNames.empty() && &t != &it->second) b.fn->value[b.m.conditions[t.condNames[r.below(t.condNames.size())]]] = false;
		for (auto &cn : it->second.condNames) b.fn->value[b.m.conditions[cn]] = true;
		for (auto &[p, wt] : it->second.act)
			for (int i = 0; i < 4 && b.m.places[p].input && b.m.places[p].tokens < wt; ++i) b.increment(p);
		if (!b.execute()) continue;
		if (b.m.running) b.stop();
		b.settle();
		b.compare("after running the imported net");
		vh::count("imported_nets_run");
	}
	vh::count("firings", (uint64_t)b.firings);
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	uint64_t h = 0;
	if (r.chance(1, 8))
	{
		// several at once, each with its own importer
		const int n = (int)r.range(2, 4);
		std::vector<Job> jobs((size_t)n);
		for (int i = 0; i < n; ++i)
		{
			prepare(jobs[(size_t)i], r, c.tmp + "/doc" + std::to_string(i) + ".xml");
			jobs[(size_t)i].own = ptne::FileImporterFactory::createXMLFileImporter();
		}
		std::vector<std::thread> th;
		for (auto &j : jobs)
			th.emplace_back(
			[&j]
			{
				try
				{
					j.own->_import(j.file, *j.b->e);
				}
				catch (const std::exception &x)
				{
					vh::fail("import-failed", x.what() + shown(j));
				}
			});
		for (auto &t : th) t.join();
		for (auto &j : jobs)
		{
			verify(j, r);
			h = vh::hcomb(h, j.a->hash);
			unlink(j.file.c_str());
			j.b->settle();
		}
		vh::count("imports_at_once", (uint64_t)n);
		vh::distinct(h);
		return;
	}
	auto importer = ptne::FileImporterFactory::createXMLFileImporter();
	const int n = (int)r.range(1, 3);
	for (int i = 0; i < n; ++i)
	{
		Job j;
		prepare(j, r, c.tmp + "/doc.xml");
		vh::describe(shown(j));
		try
		{
			importer->_import(j.file, *j.b->e);
		}
		catch (const std::exception &x)
		{
			vh::fail("import-failed", x.what() + shown(j));
		}
		verify(j, r);
		if (r.chance(1, 4) && (!j.part.places.empty() || !j.part.transitions.empty()))
		{
			// what is there already cannot be imported again
			bool threw = false;
			try
			{
				importer->_import(j.file, *j.b->e);
			}
			catch (const ptne::PTN_Exception &)
			{
				threw = true;
			}
			VH_CHECK(threw, "imported-twice", shown(j));
			j.b->compare("after the refused second import");
			vh::count("second_imports_refused");
		}
		if (r.chance(1, 2)) drive(j, r);
		if (i == 0 && c.index < 2) vh::sample(shown(j));
		h = vh::hcomb(h, vh::hcomb(j.a->hash, (uint64_t)j.enc));
		j.b->settle();
		unlink(j.file.c_str());
	}
	vh::distinct(h);
}
