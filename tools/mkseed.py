import os,subprocess,json,sys,shutil
V='/verif/seeded'
INC='include/boost/metaparse/v1/'
PRE='''#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/get_remaining.hpp>
#include <boost/metaparse/get_position.hpp>
#include <boost/metaparse/get_line.hpp>
#include <boost/metaparse/get_col.hpp>
#include <boost/metaparse/get_message.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/source_position.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/type_traits/is_same.hpp>
#include <cstdio>
%s
using namespace boost::metaparse;
namespace mpl = boost::mpl;
static int bad = 0;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED %%s\\n", #__VA_ARGS__); bad = 1; } } while (0)
%s
int main()
{
%s
  return bad;
}
'''
def seed(sid, prop, edits, needs, what, incs, decl, body, stds='98 11 14'):
    d=f'{V}/{sid}'; os.makedirs(d,exist_ok=True)
    w='/tmp/sw/t'; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        p=f'{w}/{INC}{f}.hpp'; s=open(p).read()
        assert s.count(o)==1,(sid,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    open(d+'/demo.cpp','w').write(PRE%('\n'.join('#include <boost/%s.hpp>'%(i if '/' in i else 'metaparse/'+i) for i in incs.split()),decl,body))
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the property holds on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
for s in {stds}; do
  g++ -w -ftemplate-depth=600 -std=c++$s -I"$PWD/include" "$d/demo.cpp" -o "$t/a" || exit 1
  "$t/a" || exit 1
done
''')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(d+'/meta.json','w'),indent=1)
    print('made',sid)
only=set(sys.argv[1:])
_s=seed
def seed(sid,*a,**k):
    if not only or sid in only: _s(sid,*a,**k)
exec(open('/tmp/sw/defs.py').read())
