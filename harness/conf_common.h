#pragma once
#include "ults.h"
#include <initializer_list>
#include <string>
static MNM_ConfReader *conf (const char *sec, std::initializer_list<std::pair<const char *, const char *>> kv)
{
  MNM_ConfReader *c = new MNM_ConfReader ("", sec);
  for (auto &x : kv) c->m_configFile->content_[std::string (sec) + "/" + x.first] = Chameleon (x.second);
  return c;
}
