#include <vector>
void count(std::vector<int>& list, int* listed){
  for(size_t k = 0; k < list.size(); ++k) listed[list[k]] += 1;
}
