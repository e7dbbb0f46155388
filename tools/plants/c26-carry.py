id = 'c26-weight-carry'
prop = 'C26'
needs = 'arcs given inside a transition, one without a weight after one with another weight than 1'
what = 'An arc listed inside its transition without a weight gets the weight of the arc before it.'
def edit(f):
    f('ImportExport/XML/src/XML/XML_FileImporter.cpp', '''	for (xml_node activationCondition : transition.child(attribute.c_str()))
	{
		const string activationConditionName(activationCondition.attribute("name").value());
		size_t weight = 1;
''', '''	size_t weight = 1;
	for (xml_node activationCondition : transition.child(attribute.c_str()))
	{
		const string activationConditionName(activationCondition.attribute("name").value());
''')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
using namespace ptne;
int main()
{
	std::ofstream o("n.xml");
	o << "<PTN-Engine actionsThreadOption=\"SINGLE_THREAD\"><Places><Place name=\"A\" tokens=\"3\"/><Place name=\"B\"/><Place name=\"C\"/></Places><Transitions><Transition><Name value=\"T\"/>"
		 "<ActivationPlaces><ActivationPlace name=\"A\" weight=\"3\"/></ActivationPlaces><DestinationPlaces><DestinationPlace name=\"B\" weight=\"2\"/><DestinationPlace name=\"C\"/></DestinationPlaces>"
		 "<RequireNoActionsInExecution value=\"false\"/></Transition></Transitions><Arcs/></PTN-Engine>";
	o.close();
	PTN_Engine f(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", f);
	f.execute();
	return f.getNumberOfTokens("B") == 2 && f.getNumberOfTokens("C") == 1 ? 0 : 1;
}
'''
repeat = 1
