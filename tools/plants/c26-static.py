id = 'c26-shared-document'
prop = 'C26'
needs = 'two importers reading files at the same moment'
what = 'All importers parse into one document.'
def edit(f):
    f('ImportExport/XML/src/XML/XML_FileImporter.h', '\tpugi::xml_document m_document;', '\tstatic pugi::xml_document m_document;')
    f('ImportExport/XML/src/XML/XML_FileImporter.cpp', 'XML_FileImporter::~XML_FileImporter() = default;', 'pugi::xml_document XML_FileImporter::m_document;\n\nXML_FileImporter::~XML_FileImporter() = default;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
int main()
{
	for (int n = 0; n < 2; ++n)
	{
		PTN_Engine e(Mode::SINGLE_THREAD);
		for (int i = 0; i < 300; ++i) e.createPlace({ .name = "P" + std::to_string(n) + "-" + std::to_string(i) });
		FileExporterFactory::createXMLFileExporter()->_export(e, "n" + std::to_string(n) + ".xml");
	}
	std::atomic<bool> bad{ false };
	std::vector<std::thread> t;
	for (int n = 0; n < 2; ++n)
		t.emplace_back([&, n] {
			for (int k = 0; k < 300; ++k)
			{
				PTN_Engine e(Mode::SINGLE_THREAD);
				try { FileImporterFactory::createXMLFileImporter()->_import("n" + std::to_string(n) + ".xml", e); } catch (...) { bad = true; }
				size_t own = 0;
				for (auto &p : e.getPlacesProperties()) own += p.name[1] == '0' + n;
				if (own != 300) bad = true;
			}
		});
	for (auto &x : t) x.join();
	return bad ? 1 : 0;
}
'''
repeat = 1
