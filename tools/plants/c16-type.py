id = "c16-default-type"
prop = "C16"
needs = "a file with an arc of a type that does not exist"
what = "An arc of an unknown type is imported as an activation arc instead of being refused."
def edit(f):
    f("ImportExport/XML/src/XML/XML_FileImporter.cpp", """		else
		{
			throw PTN_Exception("Type string not supported");
		}
""", """		else
		{
			arcProperties.type = ArcProperties::Type{};
		}
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
using namespace ptne;
int main()
{
	std::ofstream("net.xml") << R"(<PTN-Engine actionsThreadOption="SINGLE_THREAD"><Places><Place name="A" tokens="1" input="false" onEnterAction="" onExitAction=""/></Places>
	<Transitions><Transition><Name value="T"/><ActivationConditions/><RequireNoActionsInExecution value="false"/></Transition></Transitions>
	<Arcs><Arc><Place value="A"/><Transition value="T"/><Weight value="1"/><Type value="activation"/></Arc></Arcs></PTN-Engine>)";
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	try
	{
		FileImporterFactory::createXMLFileImporter()->_import("net.xml", e);
	}
	catch (const PTN_Exception &)
	{
		return 0;
	}
	return 1;
}
'''
