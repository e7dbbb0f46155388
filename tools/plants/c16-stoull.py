id = "c16-std-exceptions"
prop = "C16"
needs = "an arc whose weight is not a number or is out of range"
what = "Weights are converted with stoull, whose exceptions are not derived from PTN_Exception."
def edit(f):
    f("ImportExport/XML/src/XML/XML_FileImporter.cpp", """	size_t result{};
	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);

	if (ec != errc())
	{
		throw PTN_Exception("Could not convert from string to int");
	}

	return result;""", """	if (v.empty() || v.find_first_of("0123456789") == string::npos)
	{
		throw PTN_Exception("Could not convert from string to int");
	}

	return stoull(v);""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
using namespace ptne;
int main()
{
	for (const char *w : { "99999999999999999999999", "x1" })
	{
		std::ofstream("n.xml") << "<PTN-Engine actionsThreadOption=\"SINGLE_THREAD\"><Places><Place name=\"A\"/></Places><Transitions><Transition><Name value=\"T\"/>"
			"<RequireNoActionsInExecution value=\"false\"/></Transition></Transitions><Arcs><Arc><Place value=\"A\"/><Transition value=\"T\"/><Weight value=\"" << w
			<< "\"/><Type value=\"Activation\"/></Arc></Arcs></PTN-Engine>";
		PTN_Engine e;
		try
		{
			FileImporterFactory::createXMLFileImporter()->_import("n.xml", e);
		}
		catch (const PTN_Exception &)
		{
		}
		catch (...)
		{
			return 1;
		}
	}
	return 0;
}
'''
