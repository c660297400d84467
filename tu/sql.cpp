// any use of a query object: one after the other, members chosen freely; no logic of its own
#include "sqlite3util.h"
#include <string>
void made();
int choice();
int column();
void saw_success(bool r);
void saw_columns(unsigned r);
void saw_step(bool r);
void saw_text(const std::string &r);
void saw_int(sqlite3_int64 r);
static void use(sqlQuery &q)
{
	made();
	for (;;) {
		switch (choice()) {
			case 0: return;
			case 1: saw_success(q.sqlSuccess()); break;
			case 2: saw_columns(q.sqlResultSize()); break;
			case 3: saw_step(q.sqlStep()); break;
			case 4: saw_text(q.getResultText(column())); break;
			case 5: saw_text(q.getResultText()); break;
			case 6: saw_int(q.getResultInt(column())); break;
			case 7: saw_int(q.getResultInt()); break;
		}
	}
}
void tu_use(sqlite3*db,const char*t,const char*r,const char*c){ sqlQuery q(db,t,r,c); use(q); }
void tu_useu(sqlite3*db,const char*t,const char*r,const char*k,unsigned v){ sqlQuery q(db,t,r,k,v); use(q); }
void tu_usec(sqlite3*db,const char*t,const char*r,const char*k,const char*v){ sqlQuery q(db,t,r,k,v); use(q); }
bool tu_command(sqlite3*db,const char*q,unsigned r){ return sqlite3_command(db,q,r); }
