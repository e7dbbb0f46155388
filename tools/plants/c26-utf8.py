id = 'c26-utf8-only'
prop = 'C26'
needs = 'a document in another encoding than UTF-8'
what = 'Documents are read as UTF-8 whatever their encoding is.'
def edit(f):
    f('ImportExport/XML/src/XML/XML_FileImporter.cpp', 'm_document.load_file(filePath.c_str())', 'm_document.load_file(filePath.c_str(), parse_default, encoding_utf8)')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"

#include <fstream>
int main()
{
	const std::string s = "<?xml version=\"1.0\" encoding=\"UTF-16\"?><PTN-Engine actionsThreadOption=\"SINGLE_THREAD\"><Places><Place name=\"A\" tokens=\"3\"/></Places><Transitions/><Arcs/></PTN-Engine>";
	std::ofstream o("n.xml", std::ios::binary);
	o << "\xff\xfe";
	for (char c : s) o.put(c).put(0);
	o.close();
	PTN_Engine f(Mode::SINGLE_THREAD);
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", f);
	return f.getNumberOfTokens("A") == 3 ? 0 : 1;
}
'''
repeat = 1
