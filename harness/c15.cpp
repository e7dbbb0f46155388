// C15: XML export then import reproduces the net.
#include "netgen.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

const char *vh_property = "C15";
using namespace api;

namespace
{
std::string slurp(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	return { std::istreambuf_iterator<char>(f), {} };
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	const std::string dir = c.tmp + "/";
	auto exporter = ptne::FileExporterFactory::createXMLFileExporter();
	auto importer = ptne::FileImporterFactory::createXMLFileImporter();
	const int nets = 1 + (int)r.below(3);
	uint64_t h = 0;
	for (int k = 0; k < nets; ++k)
	{
		const bool runnable = r.chance(1, 2);
		Api a((Mode)r.below(4));
		makeNet(a, r, runnable);
		// the exported marking is the current one
		if (runnable)
		{
			if (a.execute() && a.m.running)
			{
				// a running net is not exported, and the file is left alone
				const std::string f = dir + "running.xml";
				{
					std::ofstream o(f);
					o << "precious";
				}
				bool threw = false;
				try
				{
					exporter->_export(*a.e, f);
				}
				catch (const ptne::PTN_Exception &)
				{
					threw = true;
				}
				VH_CHECK(threw, "running-net-exported", a.trail);
				VH_CHECK(slurp(f) == "precious", "running-net-exported", "the refused export changed the file: " << a.trail);
				a.compare("after the refused export");
				a.stop();
				vh::count("running_net_refused");
			}
			for (auto &[n, p] : a.m.places)
				if (p.input && r.chance(1, 3)) a.incrementRaw(n);
			a.settle();
		}
		a.compare("before the export");
		if (r.chance(1, 3)) exporter = ptne::FileExporterFactory::createXMLFileExporter();
		if (r.chance(1, 3)) importer = ptne::FileImporterFactory::createXMLFileImporter();
		if (r.chance(1, 6))
		{
			// cannot be written
			const char *bad[] = { "/dev/full", "nodir/x.xml", "", "." };
			const int which = (int)r.below(4);
			const std::string f = which == 0 ? "/dev/full" : which == 2 ? "" : dir + bad[which];
			bool threw = false;
			try
			{
				exporter->_export(*a.e, f);
			}
			catch (const std::exception &)
			{
				threw = true;
			}
			VH_CHECK(threw, "failed-export-not-reported", "to " << f);
			vh::count("failed_exports");
		}
		const std::string file = dir + (r.chance(1, 4) ? "net \xC3\xA9 & co.xml" : "net" + std::to_string(k) + ".xml");
		if (r.chance(1, 4))
		{
			std::ofstream o(file); // overwritten, whatever was there
			o << std::string(r.below(100000), 'x');
		}
		exporter->_export(*a.e, file);
		a.compare("after the export");
		if (r.chance(1, 4))
		{
			// exporting again makes no difference
			exporter->_export(*a.e, file);
			vh::count("exporter_reused");
		}
		Model want;
		auto b = twin(a, r, want);
		if (r.chance(1, 4))
		{
			// a running engine is stopped by the import
			b->e->setActionsThreadOption(Mode::JOB_QUEUE);
			b->e->execute();
		}
		try
		{
			importer->_import(file, *b->e);
		}
		catch (const std::exception &x)
		{
			vh::fail("import-failed", std::string(x.what()) + " after: " + a.trail + "\n" + slurp(file).substr(0, 3000));
		}
		b->m = want;
		b->compare("after the import");
		vh::count("round_trips");
		vh::count(std::string("round_trips_") + game::modeName(a.m.mode));
		h = vh::hcomb(h, a.hash);
		// import with the same importer in another engine
		if (r.chance(1, 3))
		{
			Model want2;
			auto d = twin(a, r, want2);
			importer->_import(file, *d->e);
			d->m = want2;
			d->compare("after the second import with one importer");
			vh::count("importer_reused");
		}
		// it runs like the original
		if (runnable)
		{
			for (int tries = 0; tries < 5 && !a.m.trans.empty(); ++tries)
			{
				auto it = std::next(a.m.trans.begin(), (long)r.below(a.m.trans.size()));
				auto set = [&](const std::string &cond, bool v)
				{
					a.fn->value[a.m.conditions[cond]] = v;
					b->fn->value[b->m.conditions[cond]] = v;
				};
				for (auto &[n, t] : a.m.trans)
					if (!t.condNames.empty() && &t != &it->second) set(t.condNames[r.below(t.condNames.size())], false);
				for (auto &cn : it->second.condNames) set(cn, true);
				for (auto &[p, w] : it->second.act)
				{
					auto &q = a.m.places[p];
					for (int i = 0; i < 4 && q.input && q.tokens < w; ++i)
					{
						a.increment(p);
						b->increment(p);
					}
				}
				if (!a.execute()) continue;
				if (a.m.running) a.stop();
				a.settle();
				if (!b->execute()) continue;
				if (b->m.running) b->stop();
				b->settle();
				b->compare("after running the imported net");
				a.compare("after running the exported net");
				for (auto &[n, p] : a.m.places)
					VH_CHECK(b->m.places[n].tokens == p.tokens, "harness", "");
				vh::count("imported_nets_run");
			}
			vh::count("firings", (uint64_t)b->firings);
		}
		// and exports the same again
		if (r.chance(1, 2))
		{
			const std::string file2 = dir + "again.xml";
			ptne::FileExporterFactory::createXMLFileExporter()->_export(*b->e, file2);
			b->settle();
			Model want3;
			auto d = twin(*b, r, want3);
			importer->_import(file2, *d->e);
			d->m = want3;
			d->compare("after the second round trip");
			vh::count("second_round_trips");
			unlink(file2.c_str());
		}
		unlink(file.c_str());
		if (c.index < 2 && k == 0) vh::sample(a.trail);
		b->settle();
	}
	vh::distinct(h);
}
