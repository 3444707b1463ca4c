#pragma once
#include <string>
#include <utility>
#include <vector>
// the shipped test sources (copies in /verif/corpus), each as a set of files, the first one named a.asm
const std::vector<std::vector<std::pair<std::string, std::string>>>& corpus_sources();
