id = "c15-weight-32bit"
prop = "C15"
needs = "an arc weight of more than 32 bits"
what = "The exporter writes arc weights through a 32 bit type, so heavy arcs come back with another weight."
def edit(f):
    f("ImportExport/XML/src/XML/XML_FileExporter.cpp", "to_string(arcProperties.weight)", "to_string(static_cast<unsigned int>(arcProperties.weight))")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
using namespace ptne;
int main()
{
	PTN_Engine a, b;
	a.createPlace({ .name = "A" });
	a.createTransition({ .name = "T", .activationArcs = { { .weight = 5000000000ull, .placeName = "A" } } });
	FileExporterFactory::createXMLFileExporter()->_export(a, "n.xml");
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", b);
	const auto t = b.getTransitionsProperties();
	return t.size() == 1 && t[0].activationArcs.size() == 1 && t[0].activationArcs[0].weight == 5000000000ull ? 0 : 1;
}
'''
