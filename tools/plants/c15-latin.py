id = 'c15-latin1'
prop = 'C15'
needs = 'a name with a character outside Latin-1'
what = 'Documents are written in Latin-1, in which most characters of names cannot be represented.'
def edit(f):
    f('ImportExport/XML/src/XML/XML_FileExporter.cpp', 'm_document.save_file(m_filePath.c_str())', 'm_document.save_file(m_filePath.c_str(), "\\t", format_default, encoding_latin1)')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD), f(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "\xce\xb1\xce\xb2" });
	FileExporterFactory::createXMLFileExporter()->_export(e, "n.xml");
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", f);
	const auto p = f.getPlacesProperties();
	return p.size() == 1 && p[0].name == "\xce\xb1\xce\xb2" ? 0 : 1;
}
'''
repeat = 1
