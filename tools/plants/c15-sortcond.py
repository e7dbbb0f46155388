id = 'c15-sorted-conditions'
prop = 'C15'
needs = 'a transition with more than three conditions, whose order shows'
what = 'The conditions of a transition are written in the order of their names if there are more than three.'
def edit(f):
    f('ImportExport/XML/src/XML/XML_FileExporter.cpp', '\tfor (const auto &activationCondition : transitionProperties.additionalConditionsNames)', '\tauto names = transitionProperties.additionalConditionsNames;\n\tif (names.size() > 3)\n\t{\n\t\tstd::sort(names.begin(), names.end());\n\t}\n\tfor (const auto &activationCondition : names)')
    f('ImportExport/XML/src/XML/XML_FileExporter.cpp', '#include <vector>', '#include <algorithm>\n#include <vector>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
int main()
{
	PTN_Engine a(Mode::SINGLE_THREAD), b(Mode::SINGLE_THREAD);
	for (auto *e : { &a, &b })
		for (auto n : { "d", "c", "b", "a" }) e->registerCondition(n, [] { return true; });
	a.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	a.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .additionalConditionsNames = { "d", "c", "b", "a" } });
	FileExporterFactory::createXMLFileExporter()->_export(a, "n.xml");
	FileImporterFactory::createXMLFileImporter()->_import("n.xml", b);
	return b.getTransitionsProperties()[0].additionalConditionsNames == a.getTransitionsProperties()[0].additionalConditionsNames ? 0 : 1;
}
'''
repeat = 1
