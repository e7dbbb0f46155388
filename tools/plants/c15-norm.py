id = "c15-wnorm"
prop = "C15"
needs = "names with leading, trailing or repeated blanks"
what = "The importer normalises white space in attribute values, so places, transitions and functions come back under other names."
def edit(f):
    f("ImportExport/XML/src/XML/XML_FileImporter.cpp", "m_document.load_file(filePath.c_str())", "m_document.load_file(filePath.c_str(), parse_default | parse_wnorm_attribute)")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD), i(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "a  place ", .initialNumberOfTokens = 2 });
	FileExporterFactory::createXMLFileExporter()->_export(e, "net.xml");
	FileImporterFactory::createXMLFileImporter()->_import("net.xml", i);
	return i.getPlacesProperties().size() == 1 && i.getPlacesProperties()[0].name == "a  place " ? 0 : 1;
}
'''
