id = "c15-reset-arcs"
prop = "C15"
needs = "a net with a reset arc (weight 0)"
what = "Arcs of weight 0 are not exported, so reset arcs are missing from the imported net."
def edit(f):
    f("ImportExport/XML/src/XML/XML_FileExporter.cpp", """			xml_node arcNode =""", """			if (arcProperties.weight == 0)
			{
				continue;
			}
			xml_node arcNode =""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
using namespace ptne;
int main()
{
	PTN_Engine a, b;
	a.createPlace({ .name = "A" });
	a.createTransition({ .name = "T" });
	a.addArc({ .weight = 0, .placeName = "A", .transitionName = "T", .type = ArcProperties::Type::ACTIVATION });
	FileExporterFactory::createXMLFileExporter()->_export(a, "n.xml");
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", b);
	const auto t = b.getTransitionsProperties();
	return t.size() == 1 && t[0].activationArcs.size() == 1 && t[0].activationArcs[0].weight == 0 ? 0 : 1;
}
'''
