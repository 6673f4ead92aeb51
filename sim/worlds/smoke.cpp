#include "sim.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <vector>
SIM_WORLD(smoke)
{
    std::mutex m; std::condition_variable cv; int turn=0; std::atomic<int> a(0); int n=(int)sim::param("n",2,5);
    std::vector<std::thread> ts;
    for(int i=0;i<n;i++) ts.emplace_back([&,i]{ for(int k=0;k<10;k++){ a++; std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{return turn%n==i;}); turn++; cv.notify_all(); } });
    for(auto&t:ts) t.join();
    SIM_CHECK(a==n*10,"*","sum","sum %d",(int)a);
}
