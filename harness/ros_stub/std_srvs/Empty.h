#pragma once
namespace std_srvs
{
struct EmptyRequest {};
struct EmptyResponse {};
struct Empty { typedef EmptyRequest Request; typedef EmptyResponse Response; Request request; Response response; };
}  // namespace std_srvs
