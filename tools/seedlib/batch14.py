F = '-I"$here"'
S, C, Z, X, N = ('include/nbdl/' + f for f in ('app/server.hpp', 'app/client.hpp', 'app/serializer.hpp', 'ext/beast_ws.hpp', 'app/server_connection.hpp'))
HEAD = '#include "net.hpp"\nusing namespace net;\n'
seed('closing-forgets-later-connections', 'C48', 'a connection that closes while one that was accepted after it is open', 'the connections accepted after the one that closed are told nothing any more',
     [(S, 'serv_.connections.erase(itr);', 'serv_.connections.erase(itr, serv_.connections.end());')],
     HEAD + '''int main()
{
  serving v; v.accept(3);
  leave(1); v.tell<2>(7);
  return verdict(written == all(sent{1, app_text(2, 7)}, sent{3, app_text(2, 7)}));
}
''', flags=F, extra=['net'])
seed('no-upgrade-ends-accepting', 'C48', 'someone who connects and does not ask for an upgrade, before others do', 'the server accepts nobody after that',
     [(S, '            //async_auth_check(std::move(req));\n          }\n', '            //async_auth_check(std::move(req));\n            return;\n          }\n')],
     HEAD + '''int main()
{
  serving v;
  fails = [](int what, u64 who) { return what == 23 and who == 1; };
  v.accept(2); v.tell<3>(7);
  return verdict(connected == std::vector<u64>{2} and written == all(sent{2, app_text(3, 7)}));
}
''', flags=F, extra=['net'])
seed('read-text-left-in-buffer', 'C48', 'a second text on a connection', 'the text of an earlier message is taken for that of the next',
     [(X, '        buffer.consume(buffer.size());\n', '        if (error) buffer.consume(buffer.size());\n')],
     HEAD + '''int main()
{
  serving v; v.accept(1);
  incoming = app_text(2, 5);
  fails = [](int what, u64) { if (what == 24) incoming++; return false; };
  conns[0].does(conns[0].p, 11);
  return verdict(applied.size() == 2 and applied[0].second == 6 and applied[1].second == 7);
}
''', flags=F, extra=['net'])
seed('write-fails-silently', 'C48', 'a connection that can no longer be written to', 'the failure is no error of the connection',
     [(X, '{ (not error) ? resolve(message) : resolve(make_error(error)); }', '{ (not error or message.empty() == false) ? resolve(message) : resolve(make_error(error)); }')],
     HEAD + '''int main()
{
  serving v; v.accept(2);
  fails = [](int what, u64 who) { return what == 25 and who == 2; };
  v.tell<2>(1);
  return verdict(errors == std::vector<u64>{2} and written.size() == 2);
}
''', flags=F, extra=['net'])
seed('client-sends-all-it-sent', 'C48', 'a second message of a client', 'the text of the earlier message is sent before that of the next one',
     [(Z, 'buffer = to_string(Variant(std::forward<Message>(m)));', 'buffer += to_string(Variant(std::forward<Message>(m)));')],
     HEAD + '''int main()
{
  joined j; j.connect();
  j.tell<2>(5); j.tell<3>(6);
  return verdict(written == all(sent{1, app_text(2, 5)}, sent{1, app_text(3, 6)}));
}
''', flags=F, extra=['net'])
