From d76aab9064bd4801d590bc5ff278e2cd6c857b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 01/65] fix: keep all 64 bits of a cell in '.', ''' and 's'

---
 src/Unefunge93Strategy.cpp | 2 +-
 src/Unefunge98Strategy.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..e6a63c0 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -250,7 +250,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 72c6cfbe5c01dfb6e816cfd4f30440479b04eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 02/65] fix: rotating an empty Fish stack reads no element, and
 stack copies live on the heap

---
 src/FishStrategy.cpp                | 14 +++++++++-----
 src/fingerprint/FingerprintFISH.cpp | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..8b511ab 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -314,25 +314,29 @@ FungeError FishStrategy::instructionLength(){
 FungeError FishStrategy::instructionShiftLeft(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i-1]);
 	}
-	push(TOP, temp[len-1]);
+	if(len > 0){
+		push(TOP, temp[len-1]);
+	}
 	return ERROR_NONE;
 }
 
 FungeError FishStrategy::instructionShiftRight(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
-	push(TOP, temp[0]);
+	if(len > 0){
+		push(TOP, temp[0]);
+	}
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i]);
 	}
@@ -342,7 +346,7 @@ FungeError FishStrategy::instructionShiftRight(){
 FungeError FishStrategy::instructionReverse(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..df3ff0d 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,14 +67,16 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
 			for(stack_t i = len-1; i > 0; --i){
 				stack.top().push(temp[i-1]);
 			}
-			stack.top().push(temp[len-1]);
+			if(len > 0){
+				stack.top().push(temp[len-1]);
+			}
 		} break;
 		// Mirror
 		case 'M':{
@@ -98,11 +100,13 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
-			stack.top().push(temp[0]);
+			if(len > 0){
+				stack.top().push(temp[0]);
+			}
 			for(stack_t i = len-1; i > 0; --i){
 				stack.top().push(temp[i]);
 			}
@@ -110,7 +114,7 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Reverse Stack
 		case 'S':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
-- 
2.43.0


From accb77929a7237308e46ede0702cb62de4e840b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 03/65] fix: no variable length array sized by the program

---
 src/Unefunge98Strategy.cpp             | 4 ++--
 src/fingerprint/FingerprintDynamic.cpp | 2 +-
 src/fingerprint/FingerprintFRTH.cpp    | 2 +-
 src/fingerprint/FingerprintSUBR.cpp    | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..532640f 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -185,7 +185,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
 	stack.push();
 	if(n > 0){
-		stack_t trans[n];
+		std::vector<stack_t> trans(n);
 		for(stack_t i = 0; i < n; ++i){
 			trans[i] = stack.second().pop();
 		}
@@ -214,7 +214,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
+			std::vector<stack_t> trans(n);
 			for(stack_t i = 0; i < n; ++i){
 				trans[i] = stack.top().pop();
 			}
diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..cbf191b 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -69,7 +69,7 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				std::vector<stack_t> pops(count+1);
 				for(stack_t i = 0; i <= count; ++i){
 					pops[i] = stack.top().pop();
 				}
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..dc96165 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -25,7 +25,7 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			std::vector<stack_t> pops(count+1);
 			for(stack_t i = 0; i <= count; ++i){
 				pops[i] = stack.top().pop();
 			}
diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..f865d50 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		case 'C':{
 			stack_t n = stack.top().pop();
 			Vector va = popVector(runner);
-			stack_t pops[n];
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
@@ -50,7 +50,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From 20785cc867af0c3a940b6a8b72ea76c453057f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 04/65] fix: k keeps 64-bit counts and instructions, and
 reflects when the iterated instruction fails

---
 src/Unefunge98Strategy.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 532640f..41e72e7 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = field.get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -128,9 +128,17 @@ FungeError Unefunge98Strategy::instructionIterate(){
 		}
 	}
 	ip.setPos(v);
-	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
-		runner.execute(c);
+	stack_t k = stack.top().pop();
+	for(stack_t i = 0; i < k; i++){
+		switch(runner.execute(c)){
+			case ERROR_NONE:
+			case ERROR_SKIP:
+			case ERROR_BLOCK:
+				break;
+			default:
+				ip.reflect();
+				break;
+		}
 	}
 	if(k == 0){
 		ip.next();
-- 
2.43.0


From 40123544de9feb6afdb6de9e30f7f6b551826e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 05/65] fix: an instruction that fails by exception reflects
 instead of ending the interpreter

---
 src/FungeRunner.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..1fdcfaa 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -14,6 +14,8 @@
 #include "StarfishStrategy.h"
 #include "FungeUniverse.h"
 #include "FungeDebugger.h"
+#include <exception>
+#include <iostream>
 
 namespace Funge {
 
@@ -160,7 +162,12 @@ void FungeRunner::tick(){
 }
 
 FungeError FungeRunner::execute(inst_t i){
-	return state->execute(i);
+	try{
+		return state->execute(i);
+	}catch(const std::exception& e){
+		std::cerr << e.what() << std::endl;
+		return ERROR_UNSPEC;
+	}
 }
 
 void FungeRunner::push(stack_t n){
-- 
2.43.0


From 3118d8b072b80890f544fac2b0683ba490a4ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 06/65] fix: BASE prints negative numbers, reads only digits of
 the base and has all base-85 digits

---
 src/fingerprint/FingerprintBASE.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..2eef11b 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -49,7 +49,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
@@ -96,6 +96,9 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 
 void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	if(base > 1){
+		if(num < 0){
+			std::cout << "-";
+		}
 		printBase(num, base, true);
 	}else{
 		for(stack_t i = 0; i < num; ++i){
@@ -106,9 +109,9 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 }
 
 void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
+	stack_t digit = std::abs(num % base);
 	stack_t next = num / base;
-	if(next > 0){
+	if(next != 0){
 		printBase(next, base, false);
 	}
 	if(base <= sizeof(digit_map)){
@@ -139,12 +142,12 @@ stack_t FingerprintBASE::readNum(unsigned int base) const{
 }
 
 bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
 	bool found = false;
 	if(base <= 36){
 		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
 	}
-	for(size_t i = 0; i <= base; ++i){
+	char digit = str[0];
+	for(size_t i = 0; i < base; ++i){
 		if(digit_map[i] == digit){
 			*num = (*num*base) + i;
 			found = true;
-- 
2.43.0


From 40d3d6c709d4914537d3fe117ee54f80c75792c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 07/65] fix: FPSP reads only the four bytes of a float when
 storing it in a cell

---
 src/fingerprint/include/FingerprintFloat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..b006733 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstring>
 #include <iomanip>
 
 namespace Funge {
@@ -145,7 +146,9 @@ class FingerprintFloat : public Fingerprint {
 		}
 
 		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+			stack_t s = 0;
+			std::memcpy(&s, &n, sizeof(T));
+			return s;
 		}
 };
 
-- 
2.43.0


From 185377d8dca1a5ac718593fdbec7aeaaeb54de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 08/65] fix: Fish & puts the register back on the stack,
 undamaged

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 8b511ab..1e8ad70 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -442,6 +442,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From 4dfad048f720ff6848b96f5086775358b787355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 09/65] fix: dividing the most negative cell by -1 does not
 trap

---
 src/FishStrategy.cpp       | 3 ++-
 src/Unefunge93Strategy.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 1e8ad70..3c123e4 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,8 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	// The most negative value has no negation to divide by.
+	push(TOP, (x == -1) ? 0 : (y % x));
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index e6a63c0..5b8a105 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -124,7 +124,8 @@ FungeError Unefunge93Strategy::instructionRemainder(){
 	if(a == 0){
 		stack.top().push(0);
 	}else{
-		stack.top().push(b%a);
+		// The most negative cell has no negation to divide by.
+		stack.top().push((a == -1) ? 0 : (b%a));
 	}
 	return ERROR_NONE;
 }
@@ -155,6 +156,9 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		// The most negative cell has no negation: wrap around.
+		stack.top().push(static_cast<stack_t>(-static_cast<uint64_t>(b)));
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From 17186be633a3ff705f7324dfe8c4617ee2040ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 10/65] fix: j, y, FIXP D and the random source take whole
 64-bit cells

---
 src/FungeStrategy.cpp               | 2 +-
 src/Unefunge98Strategy.cpp          | 6 +++---
 src/fingerprint/FingerprintFIXP.cpp | 3 ++-
 src/include/Unefunge98Strategy.h    | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..ed1e2b5 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -21,7 +21,7 @@ FungeStrategy::FungeStrategy(FungeRunner& r) :
 }
 
 stack_t FungeStrategy::random(stack_t min, stack_t max){
-	std::uniform_int_distribution<> dis(min, max);
+	std::uniform_int_distribution<stack_t> dis(min, max);
 	return dis(gen);
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 41e72e7..331b078 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -86,11 +86,11 @@ FungeError Unefunge98Strategy::instructionJumpOver(){
 }
 
 FungeError Unefunge98Strategy::instructionJumpForward(){
-	int j = stack.top().pop();
+	stack_t j = stack.top().pop();
 	if(j < 0){
 		ip.reflect();
 	}
-	for(int i = 0; i < std::abs(j); i++){
+	for(stack_t i = 0; i < std::abs(j); i++){
 		ip.next();
 	}
 	if(j < 0){
@@ -361,7 +361,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/fingerprint/FingerprintFIXP.cpp b/src/fingerprint/FingerprintFIXP.cpp
index e26854c..fb4ff24 100644
--- a/src/fingerprint/FingerprintFIXP.cpp
+++ b/src/fingerprint/FingerprintFIXP.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFIXP.h"
+#include <algorithm>
 #include <cmath>
 
 namespace Funge {
@@ -126,7 +127,7 @@ double FingerprintFIXP::radToDeg(double deg){
 }
 
 stack_t FingerprintFIXP::random(stack_t max){
-	std::uniform_int_distribution<> dis(0, max);
+	std::uniform_int_distribution<stack_t> dis(std::min<stack_t>(0, max), std::max<stack_t>(0, max));
 	return dis(gen);
 }
 
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 25608802581be6d176c91ebc6b59188a90c2120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 11/65] fix: NFUN X, Y and Z raise the number of dimensions far
 enough and refuse a negative axis

---
 src/fingerprint/FingerprintNFUN.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..8134535 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -75,6 +75,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			if(stack.top().pop() == 0){
 				v.set(n, 1);
@@ -82,21 +85,27 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From b9590ff2219f195704ec678afc03e2086b8602bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 12/65] fix: Starfish R removes the return stack instead of the
 data stack

---
 src/StackStack.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..03a366d 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -73,8 +73,10 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	Stack* old = *iter;
 	stack.erase(iter);
+	delete old;
 }
 
 size_t StackStack::size() const{
-- 
2.43.0


From 1aaa0f3116ceec6ac6723977a71bea4dadf48bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 13/65] fix: stack stack operations act on the selected stack
 and never reach past the bottom one

---
 src/StackStack.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 03a366d..23aac70 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -17,8 +17,8 @@ StackStack::StackStack() :
 
 StackStack::~StackStack()
 {
-	while(stack.size() > 0){
-		pop();
+	for(auto s : stack){
+		delete s;
 	}
 }
 
@@ -26,8 +26,8 @@ StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(size_t i = orig.size(); i > 0; --i){
+		stack.push_back(new Stack(orig.at(i-1)));
 	}
 }
 
@@ -40,7 +40,7 @@ Stack& StackStack::second(){
 }
 
 Stack& StackStack::at(size_t x){
-	return *stack[stack.size()-x-1];
+	return *stack.at(stack.size()-x-1);
 }
 
 const Stack& StackStack::top() const{
@@ -52,17 +52,15 @@ const Stack& StackStack::second() const{
 }
 
 const Stack& StackStack::at(size_t x) const{
-	return *stack[stack.size()-x-1];
+	return *stack.at(stack.size()-x-1);
 }
 
 void StackStack::pop(){
-	Stack* old = stack.back();
-	stack.pop_back();
-	delete old;
+	remove(0);
 }
 
 void StackStack::push(){
-	stack.push_back(new Stack());
+	insert(0);
 }
 
 void StackStack::insert(size_t pos){
@@ -77,6 +75,9 @@ void StackStack::remove(size_t pos){
 	Stack* old = *iter;
 	stack.erase(iter);
 	delete old;
+	if(select > 0 && select >= stack.size()){
+		--select;
+	}
 }
 
 size_t StackStack::size() const{
-- 
2.43.0


From 468cbf0b69c7c612b8a4a632f1161dca60cad5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 14/65] fix: a stack created while a stack mode is on follows
 that mode

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 23aac70..f77a554 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(),
 	stack()
 {
 	for(size_t i = orig.size(); i > 0; --i){
@@ -66,7 +68,9 @@ void StackStack::push(){
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	Stack* fresh = new Stack();
+	fresh->setMode(mode);
+	stack.insert(iter, fresh);
 }
 
 void StackStack::remove(size_t pos){
@@ -85,6 +89,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From fd6cf20083978a28e16cd59cb50008536550b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 15/65] fix: the torus is 80 by 25 cells in every direction

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..de7fb2a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) >= 80){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) >= 25){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From 28f8f563c3aff7cca1b18289ba5da0bd08971cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 16/65] fix: the field keeps the bounds of every dimension and
 of an emptied field

---
 src/Field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..954b06d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,10 +258,10 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] == p[i]){
 				// scan for new max
-				dim_t max = std::numeric_limits<dim_t>::min() ;
+				dim_t max = field.empty() ? 0 : std::numeric_limits<dim_t>::min();
 				for(auto s = field.cbegin(); s != field.cend(); ++s){
 					if(s->first[i] > max){
 						max = s->first[i];
@@ -271,7 +271,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 			if(mins[i] == p[i]){
 				// scan for new min
-				dim_t min = std::numeric_limits<dim_t>::max();
+				dim_t min = field.empty() ? 0 : std::numeric_limits<dim_t>::max();
 				for(auto s = field.cbegin(); s != field.cend(); ++s){
 					if(s->first[i] < min){
 						min = s->first[i];
@@ -281,7 +281,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From 1fbcfbef6f6077c24e07cd004c5f60e8a49b454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 17/65] fix: SGML strings may contain any cell value

---
 src/FungeStateString.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..bc8129e 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -7,9 +7,16 @@
 #include "FungeStateString.h"
 #include "FungeRunner.h"
 #include "FungeUniverse.h"
+#include <cctype>
+#include <climits>
 
 namespace Funge {
 
+// isspace() is only defined for the values of an unsigned char.
+static bool isSpace(inst_t i){
+	return i >= 0 && i <= UCHAR_MAX && isspace(static_cast<int>(i));
+}
+
 FungeStateString::FungeStateString(FungeRunner& r) :
 	FungeState(r),
 	end('\"'),
@@ -65,7 +72,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From bef7f2f984b9840f543c143dd88373aafc7ea627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 18/65] fix: loading DBUG binds its instructions

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..a3ef965 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -17,6 +17,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 
 void FingerprintDBUG::activate(){
 	dbg = &runner.getUniverse().getDebugger();
+	Fingerprint::activate();
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
-- 
2.43.0


From 1750647fa0164da44e519c89c2d166b18864925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 19/65] fix: NFUN does not bind B, which it does not implement

---
 src/fingerprint/FingerprintNFUN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index 8134535..5e686df 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -11,7 +11,7 @@ namespace Funge {
 
 FingerprintNFUN::FingerprintNFUN(FungeRunner& r) :
 	Fingerprint(r,
-			{'A', 'B', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
+			{'A', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
 {}
 
 FungeError FingerprintNFUN::execute(inst_t cmd){
-- 
2.43.0


From d568a82cc0ba56e9c618c932d0de1cb46382b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 20/65] fix: a universe with native threads reports its end to
 the waiter

---
 src/FungeUniverse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..7018783 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -118,6 +118,7 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			cv.notify_all();
 			mutex.unlock();
 		}else{
 			mutex.lock();
-- 
2.43.0


From df173d0e52dadbd5d989aeb2ea11a423bd109ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 21/65] fix: creating a third universe of the same name
 terminates

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 44d2f30c35196afc1dee2ce2417b3ba5f4e44807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 22/65] fix: DIRF respects -fno-filesystem

---
 src/fingerprint/FingerprintDIRF.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..08be258 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintDIRF.h"
+#include "FungeUniverse.h"
 #include "FungeUtilities.h"
 #include<filesystem>
 
@@ -16,6 +17,10 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	if(!runner.getUniverse().allowFilesystem()){
+		std::cerr << "Run with -ffilesystem to enable execution." << std::endl;
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-- 
2.43.0


From 6d98001d55ae3570d674d592e771e830a2156d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 23/65] fix: universes created by a program inherit its
 permissions

---
 src/fingerprint/FingerprintFungeLib.cpp | 4 ++++
 src/fingerprint/FingerprintMVRS.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..86594da 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -39,6 +39,10 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 		FungeConfig config;
 		config.name = std::filesystem::canonical(fl);
 		config.standard = FUNGE_98;
+		config.concurrent = r.getUniverse().allowConcurrent();
+		config.execute = r.getUniverse().allowExecute();
+		config.filesystem = r.getUniverse().allowFilesystem();
+		config.fingerprint = r.getUniverse().allowFingerprints();
 		if(r.isMode(FUNGE_MODE_DEBUG)){
 			config.mode |= FUNGE_MODE_DEBUG;
 		}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..e4c5b4f 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,10 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
+				config.fingerprint = universe.allowFingerprints();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From d6a5d8220e3f3cb7505fe96d0f18471c4939c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 24/65] fix: an option with an empty value is rejected instead
 of crashing

---
 src/Funge.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..bf74426 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -109,8 +109,7 @@ int fungemain(int argc, char **argv, char **envp){
 		if(argv[a][0] != '-'){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			char* arg = &argv[a][5];
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -165,8 +164,7 @@ int fungemain(int argc, char **argv, char **envp){
 		}else if(strcmp(argv[a], "-finvert-hl") == 0){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			char* arg = &argv[a][7];
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -176,8 +174,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			char* arg = &argv[a][10];
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -189,8 +186,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			char* arg = &argv[a][8];
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -200,8 +196,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			char* arg = &argv[a][10];
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From 2782d3934a3ee510e04c3f645a0b78520050b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 25/65] fix: -l accumulates all 64 bits of a fingerprint

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index bf74426..c2f24bf 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -207,7 +207,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), 0, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t{0}, [](uint64_t f, char c){return (f << 8) + c;});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0


From 2dc787d78b8135c1c0490c42e1e55618128c15c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 26/65] fix: a malformed BeQunge file is reported instead of
 crashing

---
 src/Field.cpp | 10 +++++-----
 src/Funge.cpp |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 954b06d..f1762af 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -121,19 +121,19 @@ void Field::parseBeq(std::istream& file){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
 				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+					dims = std::stoul(cmd.at(1));
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				lines = std::stoul(cmd.at(1));
 			}else if(cmd[0] == "Origin"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				for(dim = 0; dim < orig.size(); ++dim){
 					origin.set(dim, std::stoi(orig[dim]));
 				}
 			}else if(cmd[0] == "Coord"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				size_t start = dim;
 				for( ; dim < orig.size()+start; ++dim){
 					if(orig[dim-start].size() > 0){
@@ -144,7 +144,7 @@ void Field::parseBeq(std::istream& file){
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
+			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
 				for(auto c : line){
 					put(pos, c);
diff --git a/src/Funge.cpp b/src/Funge.cpp
index c2f24bf..405646e 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -95,8 +95,13 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 		return EIO;
 	}
 
-	FungeUniverse* universe = FungeMultiverse::getInstance().create(stream, fmt, config);
-	universe->createRunner(Vector{0}, Vector{1});
+	try{
+		FungeUniverse* universe = FungeMultiverse::getInstance().create(stream, fmt, config);
+		universe->createRunner(Vector{0}, Vector{1});
+	}catch(const std::exception& e){
+		std::cerr << "Failed to load " << filepath << ": " << e.what() << std::endl;
+		return EIO;
+	}
 
 	return 0;
 }
-- 
2.43.0


From a5515e29628bb8bc898778c322bf453e0471c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 27/65] fix: the table of universes is only read under its lock

---
 src/Defunge.cpp               |  6 +++---
 src/FungeMultiverse.cpp       | 22 ++++++++++++----------
 src/include/FungeMultiverse.h |  7 +++++--
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..2fc2033 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -443,13 +443,13 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 	}
 
 	std::string current = debugger->universe.getName();
-	for(auto uni = multi.cbegin(); uni != multi.cend(); ++uni){
-		if(current == uni->first){
+	for(auto uni : multi.snapshot()){
+		if(current == uni.first){
 			std::cout << "* ";
 		}else{
 			std::cout << "  ";
 		}
-		std::cout << uni->first << std::endl;
+		std::cout << uni.first << std::endl;
 	}
 	return DEFUNGE_OK;
 }
diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..011b318 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -17,8 +17,8 @@ FungeMultiverse::FungeMultiverse() :
 }
 
 FungeMultiverse::~FungeMultiverse(){
-	std::lock_guard<std::mutex> guard(mutex);
-	for(auto uni : universes){
+	// A program that is still running may use the multiverse until its universe is destroyed
+	for(auto uni : snapshot()){
 		// Destroy the universe
 		delete uni.second;
 	}
@@ -65,7 +65,8 @@ int FungeMultiverse::waitAll(){
 	size_t count = 0;
 	do{
 		running = false;
-		for(auto next : universes){
+		count = 0;
+		for(auto next : snapshot()){
 			const FungeUniverse* uni = next.second;
 			if(uni->isRunning()){
 				running = true;
@@ -74,32 +75,33 @@ int FungeMultiverse::waitAll(){
 			++count;
 		}
 		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+	}while(running || count < size());
 
+	std::lock_guard<std::mutex> guard(mutex);
 	return prime->get();
 }
 
 void FungeMultiverse::killAll(int ret){
-	for(auto next : universes){
+	for(auto next : snapshot()){
 		next.second->killAll(ret);
 	}
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
 	return nullptr;
 }
 
-std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse::cbegin() const{
-	return universes.cbegin();
-}
-std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse::cend() const{
-	return universes.cend();
+std::unordered_map<std::string, FungeUniverse*> FungeMultiverse::snapshot() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return universes;
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..a6791da 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -62,8 +62,11 @@ class FungeMultiverse {
 		 */
 		FungeUniverse* operator[](std::string name);
 
-		std::unordered_map<std::string, FungeUniverse*>::const_iterator cbegin() const;
-		std::unordered_map<std::string, FungeUniverse*>::const_iterator cend() const;
+		/**
+		 * Get the universes that exist now.
+		 * @return Copy of the table of universes, by name.
+		 */
+		std::unordered_map<std::string, FungeUniverse*> snapshot() const;
 
 		/**
 		 * Get the size of the multiverse.
-- 
2.43.0


From 9966febef76220b3ab73e917b74fd74944a4b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 28/65] fix: destroying a native-threads universe joins each
 thread once

---
 src/FungeUniverse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 7018783..89373a4 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,11 +54,14 @@ FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
 
-	std::lock_guard<std::mutex> guard(mutex);
+	std::unique_lock<std::mutex> guard(mutex);
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
+		threads.pop();
+		guard.unlock();
 		thread->join();
 		delete thread;
+		guard.lock();
 	}
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
-- 
2.43.0


From a890a496f59ac5eb172b5fed7000db381115304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 29/65] fix: a runner added to a killed universe does not keep
 it running

---
 src/FungeUniverse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 89373a4..eee2ae3 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -90,6 +90,9 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 		std::lock_guard<std::mutex> guard(mutex);
 		runner->setUniverse(*this);
 		runner->setMode(config.mode);
+		if(!running){
+			runner->getIP().stop();
+		}
 		runners.push_back(runner);
 		semaphore.release();
 	}
@@ -98,6 +101,10 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
+	if(!running){
+		// The universe was killed while the runner was being made
+		runner->getIP().stop();
+	}
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
 		threads.push(thread);
-- 
2.43.0


From f675a42a333aa70f601ff463c9ee9b9cf287ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 30/65] fix: flags and counters shared between threads are
 atomic

---
 src/FungeRunner.cpp              | 2 +-
 src/InstructionPointer.cpp       | 2 +-
 src/include/FungeRunner.h        | 3 ++-
 src/include/FungeUniverse.h      | 5 +++--
 src/include/InstructionPointer.h | 3 ++-
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 1fdcfaa..6e98fd8 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -19,7 +19,7 @@
 
 namespace Funge {
 
-size_t FungeRunner::count = 0;
+std::atomic<size_t> FungeRunner::count(0);
 
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index de7fb2a..2ba2086 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -25,7 +25,7 @@ InstructionPointer::InstructionPointer(FungeRunner& r) :
 InstructionPointer::InstructionPointer(const InstructionPointer& orig, FungeRunner& r) :
 	observers(),
 	runner(r),
-	stopped(orig.stopped),
+	stopped(orig.isStopped()),
 	pos(orig.pos),
 	delta(orig.delta),
 	storage(orig.storage)
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..6141f55 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -12,6 +12,7 @@
 #include "FungeStateNormal.h"
 #include "FungeStateString.h"
 #include "FungeConfig.h"
+#include <atomic>
 #include <memory>
 
 namespace Funge {
@@ -57,7 +58,7 @@ class FungeRunner {
 		const FungeRunner* getParent();
 	
 	private:
-		static size_t count;
+		static std::atomic<size_t> count;
 
 		size_t id;
 		FungeUniverse* universe;
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..7a34fd1 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -124,8 +125,8 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
-		bool running;
-		int exitcode;
+		std::atomic<bool> running;
+		std::atomic<int> exitcode;
 		FungeConfig config;
 		FungeDebugger debug;
 		Field field;
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..caa497a 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -8,6 +8,7 @@
 
 #include "Vector.h"
 #include "funge_types.h"
+#include <atomic>
 #include <functional>
 
 namespace Funge {
@@ -133,7 +134,7 @@ class InstructionPointer {
 	private:
 		std::vector<std::function<void(const Vector&)>> observers;
 		FungeRunner& runner;
-		bool stopped;
+		std::atomic<bool> stopped;
 		Vector pos;
 		Vector delta;
 		Vector storage;
-- 
2.43.0


From 5f5de9e35adcb3cb99902665e5c4ca38d6494d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 31/65] fix: universe and stack state is only accessed under
 its lock

---
 src/FungeUniverse.cpp       | 14 ++++++++++++--
 src/Stack.cpp               |  7 ++++++-
 src/include/FungeUniverse.h |  1 +
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index eee2ae3..2fae653 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -161,7 +161,7 @@ void FungeUniverse::operator()(){
 
 void FungeUniverse::wait() const{
 	std::unique_lock<std::mutex> lock(mutex);
-	cv.wait(lock, [this]{return !isRunning();});
+	cv.wait(lock, [this]{return !hasRunners();});
 }
 
 int FungeUniverse::get() const{
@@ -180,6 +180,11 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return hasRunners();
+}
+
+bool FungeUniverse::hasRunners() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
@@ -216,6 +221,7 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 }
 
 FungeRunner* FungeUniverse::getRunner(size_t id){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		if(r->getID() == id){
 			return r;
@@ -244,26 +250,30 @@ FungeString FungeUniverse::stringStyle() const {
 }
 
 void FungeUniverse::setMode(FungeMode m){
+	std::lock_guard<std::mutex> guard(mutex);
 	config.mode |= m;
 	updateMode();
 }
 
 void FungeUniverse::clearMode(FungeMode m){
+	std::lock_guard<std::mutex> guard(mutex);
 	config.mode &= ~m;
 	updateMode();
 }
 
 void FungeUniverse::toggleMode(FungeMode m){
+	std::lock_guard<std::mutex> guard(mutex);
 	config.mode ^= m;
 	updateMode();
 }
 
 FungeMode FungeUniverse::getMode() const {
+	std::lock_guard<std::mutex> guard(mutex);
 	return config.mode;
 }
 
 bool FungeUniverse::isMode(FungeMode m) const {
-	return !!(config.mode & m);
+	return !!(getMode() & m);
 }
 
 void FungeUniverse::updateMode(){
diff --git a/src/Stack.cpp b/src/Stack.cpp
index b6d2272..39c7029 100644
--- a/src/Stack.cpp
+++ b/src/Stack.cpp
@@ -20,10 +20,12 @@ Stack::Stack() :
 
 Stack::Stack(const Stack& orig) :
 	mode(),
-	stack(orig.stack),
+	stack(),
 	ops(0),
 	mutex()
 {
+	std::lock_guard<std::mutex> lock(orig.mutex);
+	stack = orig.stack;
 	
 }
 
@@ -74,10 +76,12 @@ void Stack::clear(){
 }
 
 size_t Stack::size() const{
+	std::lock_guard<std::mutex> lock(mutex);
 	return stack.size();
 }
 
 size_t Stack::age() const{
+	std::lock_guard<std::mutex> lock(mutex);
 	return ops;
 }
 
@@ -108,6 +112,7 @@ stack_t Stack::operator[](size_t p) const{
 }
 
 void Stack::setMode(FungeMode m){
+	std::lock_guard<std::mutex> lock(mutex);
 	mode = m;
 }
 
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 7a34fd1..cfbb1d2 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -140,6 +140,7 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		bool hasRunners() const;
 		void updateMode();
 
 		friend class FungeMultiverse;
-- 
2.43.0


From 9e8459ec873c8335d04798c63e4d0a265de5daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 32/65] fix: the debugger forgets the runner of an ended IP

---
 src/Defunge.cpp       | 2 +-
 src/FungeDebugger.cpp | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 2fc2033..e79b8a7 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -136,7 +136,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
+			if(t.second.runner != nullptr && t.second.runner->getIP().getPos() == pos){
 				std::cout << "\e[43;1m"; // Yellow background
 				color = true;
 				break;
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..fb9ab95 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -72,7 +72,8 @@ void FungeDebugger::trap(FungeRunner& runner){
 
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
-		if(watchpoints.contains(pos)){
+		auto found = threads.find(lastThread);
+		if(watchpoints.contains(pos) && found != threads.end() && found->second.runner != nullptr){
 			threads[lastThread].state = STATE_BREAK;
 			intro(*threads[lastThread].runner);
 			std::cout << "Watchpoint " << pos << std::endl;
@@ -102,7 +103,11 @@ void FungeDebugger::addWatchpoint(const Vector& vec){
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
-	threads[runner.getID()].state = STATE_END;
+	auto found = threads.find(runner.getID());
+	if(found != threads.end()){
+		found->second.state = STATE_END;
+		found->second.runner = nullptr;
+	}
 }
 
 void FungeDebugger::intro(FungeRunner& runner){
-- 
2.43.0


From d726146889b400e8fa47b608d1d5b4a1289174ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 33/65] fix: the debugger shows each IP at its own position

---
 src/Defunge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e79b8a7..7525470 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -124,7 +124,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
-- 
2.43.0


From 6823f38d16fdac24024f276683ff191b8bf3d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 34/65] fix: the debugger quits at the end of its input

---
 src/Defunge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 7525470..14e6fcd 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,10 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			// No more commands
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
-- 
2.43.0


From 8b12e292511011e8ae43278f301a3902d1eaa165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 35/65] fix: reading the clock does not share a buffer between
 threads

---
 src/StarfishStrategy.cpp   | 9 ++++++---
 src/Unefunge98Strategy.cpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..2296a55 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -130,7 +130,8 @@ FungeError StarfishStrategy::instructionSleep(){
 
 FungeError StarfishStrategy::instructionHour(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local = {};
+	const std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_hour);
@@ -139,7 +140,8 @@ FungeError StarfishStrategy::instructionHour(){
 
 FungeError StarfishStrategy::instructionMinute(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local = {};
+	const std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_min);
@@ -148,7 +150,8 @@ FungeError StarfishStrategy::instructionMinute(){
 
 FungeError StarfishStrategy::instructionSecond(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local = {};
+	const std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_sec);
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 331b078..9894315 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -392,7 +392,8 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	pushes += stack.top().push(stack.size());
 	// Time
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local = {};
+	const std::tm* dt = localtime_r(&now, &local);
 	pushes += stack.top().push((dt->tm_hour << 16) + (dt->tm_min << 8) + dt->tm_sec);
 	// Date
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
-- 
2.43.0


From 6116a38aa79fd751b499fbb2d770b6cf20732a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 36/65] fix: REFC references are shared between universes under
 a lock

---
 src/fingerprint/FingerprintREFC.cpp       | 4 ++++
 src/fingerprint/include/FingerprintREFC.h | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/fingerprint/FingerprintREFC.cpp b/src/fingerprint/FingerprintREFC.cpp
index 0b2567f..860a364 100644
--- a/src/fingerprint/FingerprintREFC.cpp
+++ b/src/fingerprint/FingerprintREFC.cpp
@@ -10,6 +10,7 @@
 namespace Funge {
 
 std::map<stack_t, Vector> FingerprintREFC::refc_map;
+std::mutex FingerprintREFC::refc_mutex;
 
 FingerprintREFC::FingerprintREFC(FungeRunner& r) :
 	Fingerprint(r, {'R', 'D'})
@@ -19,6 +20,7 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 	switch(cmd){
 		case 'R':{
 			Vector v = popVector(runner);
+			std::lock_guard<std::mutex> guard(refc_mutex);
 			stack_t r = random();
 			auto find = refc_map.find(r);
 			while(find != refc_map.end()){
@@ -30,9 +32,11 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 		} break;
 		case 'D':{
 			stack_t r = stack.top().pop();
+			std::unique_lock<std::mutex> guard(refc_mutex);
 			auto find = refc_map.find(r);
 			if(find != refc_map.end()){
 				Vector v = refc_map[r];
+				guard.unlock();
 				pushVector(runner, v);
 			}
 		} break;
diff --git a/src/fingerprint/include/FingerprintREFC.h b/src/fingerprint/include/FingerprintREFC.h
index 32929fc..19fc3cd 100644
--- a/src/fingerprint/include/FingerprintREFC.h
+++ b/src/fingerprint/include/FingerprintREFC.h
@@ -9,6 +9,7 @@
 #include "Fingerprint.h"
 #include "Vector.h"
 #include <map>
+#include <mutex>
 
 namespace Funge {
 
@@ -21,6 +22,7 @@ class FingerprintREFC : public Fingerprint {
 	
 	protected:
 		static std::map<stack_t, Vector> refc_map;
+		static std::mutex refc_mutex;
 };
 
 }
-- 
2.43.0


From 96b4086a1e68b40843ecad5022ab61903b29ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 37/65] fix: a field shared between universes is accessed under
 a lock

---
 src/Field.cpp       | 20 ++++++++++++++++----
 src/include/Field.h |  5 ++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index f1762af..aba0e78 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -18,7 +18,8 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 	switch(fmt){
 		default:
@@ -44,7 +45,8 @@ Field::Field(size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 
 }
@@ -89,6 +91,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 			last = i;
 		}
 	}
+	std::lock_guard<std::mutex> guard(mutex);
 	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
@@ -230,6 +233,7 @@ void Field::reset(dim_t d, Vector& v, const Vector& start, Vector& max){
 }
 
 dim_t Field::min(size_t d) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < mins.size()){
 		ret = mins[d];
@@ -238,6 +242,7 @@ dim_t Field::min(size_t d) const{
 }
 
 dim_t Field::max(size_t d) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < maxs.size()){
 		ret = maxs[d];
@@ -246,13 +251,14 @@ dim_t Field::max(size_t d) const{
 }
 
 void Field::put(const Vector& p, inst_t v){
+	callObservers(p, v);
+	std::lock_guard<std::mutex> guard(mutex);
 	while(maxs.size() < p.size()){
 		maxs.push_back(0);
 	}
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
-	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
 		if(find != field.end()){
@@ -298,6 +304,7 @@ void Field::put(const Vector& p, inst_t v){
 }
 
 size_t Field::size() const {
+	std::lock_guard<std::mutex> guard(mutex);
 	if(dimensions == 0){
 		return maxs.size();
 	}else{
@@ -306,6 +313,7 @@ size_t Field::size() const {
 }
 
 inst_t Field::get(const Vector& p) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	inst_t ret = ' ';
 	auto find = field.find(p);
 	if(find != field.end()){
@@ -327,11 +335,15 @@ const std::vector<inst_t>& Field::hasPlanes() const{
 }
 
 void Field::addObserver(std::function<void(const Vector&, inst_t)> cb){
+	std::lock_guard<std::mutex> guard(mutex);
 	observers.push_back(cb);
 }
 
 void Field::callObservers(const Vector& v, inst_t i) const{
-	for(auto cb : observers){
+	std::unique_lock<std::mutex> guard(mutex);
+	const auto calls = observers;
+	guard.unlock();
+	for(auto cb : calls){
 		cb(v, i);
 	}
 }
diff --git a/src/include/Field.h b/src/include/Field.h
index b0b8474..9566bd6 100644
--- a/src/include/Field.h
+++ b/src/include/Field.h
@@ -8,7 +8,9 @@
 
 #include "Vector.h"
 #include "funge_types.h"
+#include <atomic>
 #include <iostream>
+#include <mutex>
 #include <unordered_map>
 #include <vector>
 #include <functional>
@@ -129,8 +131,9 @@ class Field {
 		std::vector<dim_t> mins;
 		std::vector<inst_t> planes;
 		std::vector<std::function<void(const Vector&, inst_t)>> observers;
-		size_t dimensions;
+		std::atomic<size_t> dimensions;
 		FungeCell cellsize;
+		mutable std::mutex mutex;
 		
 		void parseBeq(std::istream& file);
 		void parseFungeLib(std::istream& file);
-- 
2.43.0


From 05aab910dff67aad562f06ba090ba50571001660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 38/65] fix: a runner that changes universe is never run by
 both

---
 src/FungeMultiverse.cpp     | 15 +++++++-------
 src/FungeRunner.cpp         |  6 +++++-
 src/FungeUniverse.cpp       | 41 +++++++++++++++++++++++--------------
 src/include/FungeUniverse.h |  4 ++++
 4 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 011b318..c2382d2 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -62,20 +62,19 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 
 int FungeMultiverse::waitAll(){
 	bool running = false;
-	size_t count = 0;
 	do{
+		for(auto next : snapshot()){
+			next.second->wait();
+		}
+		// Keep looping until all universes are dead, while no runner moves between them
+		std::lock_guard<std::mutex> transit(FungeUniverse::transferring);
 		running = false;
-		count = 0;
 		for(auto next : snapshot()){
-			const FungeUniverse* uni = next.second;
-			if(uni->isRunning()){
+			if(next.second->isRunning()){
 				running = true;
 			}
-			uni->wait();
-			++count;
 		}
-		// Keep looping until all universes are dead
-	}while(running || count < size());
+	}while(running);
 
 	std::lock_guard<std::mutex> guard(mutex);
 	return prime->get();
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 6e98fd8..0b53f61 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -125,10 +125,14 @@ bool FungeRunner::isRunning() const {
 }
 
 void FungeRunner::operator()(){
-	while(!ip.isStopped()){
+	FungeUniverse* home = universe;
+	while(!ip.isStopped() && universe == home){
 		tick();
 		std::this_thread::yield();
 	}
+	if(universe != home){
+		home->handOver(this);
+	}
 }
 
 void FungeRunner::tick(){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 2fae653..f01a450 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -10,6 +10,8 @@
 
 namespace Funge {
 
+std::mutex FungeUniverse::transferring;
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -87,19 +89,27 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 
 void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+		// The runner is handed over by the universe that is running it
 		runner->setUniverse(*this);
-		runner->setMode(config.mode);
-		if(!running){
-			runner->getIP().stop();
-		}
-		runners.push_back(runner);
-		semaphore.release();
+		runner->setMode(getMode());
 	}
 }
 
+void FungeUniverse::handOver(FungeRunner* runner){
+	FungeUniverse& other = runner->getUniverse();
+	std::lock_guard<std::mutex> transit(transferring);
+	std::scoped_lock guard(mutex, other.mutex);
+	runners.remove(runner);
+	other.startRunner(runner);
+	cv.notify_all();
+}
+
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
+	startRunner(runner);
+}
+
+void FungeUniverse::startRunner(FungeRunner* runner){
 	runner->setMode(config.mode);
 	if(!running){
 		// The universe was killed while the runner was being made
@@ -139,18 +149,19 @@ void FungeUniverse::operator()(){
 				if(thread->isRunning()){
 					thread->tick();
 				}
+				if(&thread->getUniverse() != this){
+					handOver(thread);
+					mutex.lock();
+					continue;
+				}
 				mutex.lock();
 
 				runners.pop_front();
-				if(&thread->getUniverse() == this){
-					if(thread->isRunning()){
-						runners.push_back(thread);
-					}else{
-						debug.endThread(*thread);
-						delete thread;
-						cv.notify_all();
-					}
+				if(thread->isRunning()){
+					runners.push_back(thread);
 				}else{
+					debug.endThread(*thread);
+					delete thread;
 					cv.notify_all();
 				}
 			}
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index cfbb1d2..eaf3e5c 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -125,6 +125,7 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
+		static std::mutex transferring; ///< Held while a runner moves between universes.
 		std::atomic<bool> running;
 		std::atomic<int> exitcode;
 		FungeConfig config;
@@ -140,10 +141,13 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		void startRunner(FungeRunner* runner);
+		void handOver(FungeRunner* runner);
 		bool hasRunners() const;
 		void updateMode();
 
 		friend class FungeMultiverse;
+		friend class FungeRunner;
 };
 
 }
-- 
2.43.0


From a2320b9e14a7543f105e089647c3421aef673f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 39/65] fix: IIPC A does not use a parent that is absent or has
 ended

---
 src/FungeRunner.cpp                 | 15 +++++++++++----
 src/fingerprint/FingerprintIIPC.cpp |  6 +++++-
 src/include/FungeRunner.h           |  6 ++++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 0b53f61..0cad94f 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -26,7 +26,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	hasparent(false),
+	parent(0),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -44,7 +45,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	hasparent(true),
+	parent(r.id),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -62,7 +64,8 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	hasparent(true),
+	parent(runner.id),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -255,7 +258,11 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
+bool FungeRunner::hasParent() const {
+	return hasparent;
+}
+
+size_t FungeRunner::getParentID() const {
 	return parent;
 }
 
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..b460bd8 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -19,7 +19,11 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':
-			stack.top().push(runner.getParent()->getID());
+			if(runner.hasParent()){
+				stack.top().push(runner.getParentID());
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 			break;
 		case 'D':{
 			size_t age = stack.top().age();
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index 6141f55..94c7465 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -55,7 +55,8 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		bool hasParent() const;
+		size_t getParentID() const;
 	
 	private:
 		static std::atomic<size_t> count;
@@ -64,7 +65,8 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		bool hasparent;
+		size_t parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From fe6ceab6403ae3c91db6e644da35610d82349697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 40/65] fix: the number of dimensions is only accessed under
 the universe's lock

---
 src/FungeUniverse.cpp | 1 +
 src/Stack.cpp         | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index f01a450..6f02050 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -242,6 +242,7 @@ FungeRunner* FungeUniverse::getRunner(size_t id){
 }
 
 size_t FungeUniverse::dimensions(size_t d){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(d > 0){
 		config.dimensions = d;
 	}
diff --git a/src/Stack.cpp b/src/Stack.cpp
index 39c7029..66372b7 100644
--- a/src/Stack.cpp
+++ b/src/Stack.cpp
@@ -26,7 +26,6 @@ Stack::Stack(const Stack& orig) :
 {
 	std::lock_guard<std::mutex> lock(orig.mutex);
 	stack = orig.stack;
-	
 }
 
 stack_t Stack::pop(){
-- 
2.43.0


From 0731bd37eeca8026683e1381c33a00137db4e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 41/65] fix: blank lines, trailing spaces and files beside the
 FMV file are not taken for other files

An .fmv file in the current directory looked for its universes in the
root directory, and a trailing newline or space made an additional
universe or argument.
---
 src/Funge.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 405646e..f8cdac1 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,6 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
@@ -33,16 +32,17 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		auto iss = std::istringstream(line);
 
 		std::string filename;
-		iss >> filename;
+		if(!(iss >> filename)){
+			continue; // Blank line
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = filepath.parent_path() / filename;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		std::string arg;
+		while(iss >> arg){
 			cfg.args.push_back(arg);
 		}
 
-- 
2.43.0


From 2891df88353ea89a3cb2009aeca145cb3e036b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 42/65] fix: loading a directory or an unreadable file fails
 instead of never ending

---
 src/Field.cpp              | 2 +-
 src/Funge.cpp              | 1 +
 src/Unefunge98Strategy.cpp | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index aba0e78..b6c4325 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -55,7 +55,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 	Vector v(start);
 	Vector max(start);
 	int last = 0;
-	for(int i = file.get(); !file.eof(); i = file.get()) {
+	for(int i = file.get(); file.good(); i = file.get()) {
 		size_t dims = dimensions;
 		if((i == '\n' || i == '\r') && !binary){
 			if(i == '\r'){
diff --git a/src/Funge.cpp b/src/Funge.cpp
index f8cdac1..a6ffb70 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -90,6 +90,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 	
 	std::ifstream stream(filepath);
+	stream.peek(); // A directory can be opened but not read
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 9894315..9ff5f87 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -253,6 +253,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		Vector va = popVector(runner);
 		va += ip.getStorage();
 		std::ifstream file(filepath);
+		file.peek(); // A directory can be opened but not read
 		if(!file.fail()){
 			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
-- 
2.43.0


From 592964fb714b5359ecf69d3b4e7d4840d34c50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 43/65] fix: the size of a loaded file includes a last line
 without a newline

---
 src/Field.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Field.cpp b/src/Field.cpp
index b6c4325..960b227 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -91,6 +91,9 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 			last = i;
 		}
 	}
+	if(v[0] > start[0]){
+		increment(1, v, max); // The last line did not end in a newline
+	}
 	std::lock_guard<std::mutex> guard(mutex);
 	if(dimensions == 0){
 		dimensions = maxs.size();
-- 
2.43.0


From 1ac06b2507ef6d07cc21164ac22872f1ff6c2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 44/65] fix: BASE N prints the digits 52 to 63 of base 64

The table of digits lacked 0 to 9, so 52 was printed as + and 54 and above as NUL.
---
 src/fingerprint/FingerprintBASE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 2eef11b..adc9ec3 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
+	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
-- 
2.43.0


From 225d8641693a0fcd6a70cb372384c58936c03412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 45/65] fix: characters above 127 of a string stay positive
 cells

The string utilities and STRN P sign-extended the characters of a string, so STRN N turned the cell 233 into -23,
although ~ and string mode give the cell 233.
---
 src/fingerprint/FingerprintSTRN.cpp | 2 +-
 src/util/FungeUtilities.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..a16cf87 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -87,7 +87,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				field.put(va, static_cast<unsigned char>(c));
 				va += Vector{1};
 			}
 			field.put(va, 0);
diff --git a/src/util/FungeUtilities.cpp b/src/util/FungeUtilities.cpp
index 9b14794..1153c5c 100644
--- a/src/util/FungeUtilities.cpp
+++ b/src/util/FungeUtilities.cpp
@@ -49,7 +49,7 @@ size_t pushString(Stack& stack, const std::string& str){
 	size_t s = str.length();
 	stack.push(0);
 	for(size_t c = s; c > 0; --c){
-		stack.push(str[c-1]);
+		stack.push(static_cast<unsigned char>(str[c-1]));
 	}
 	return s+1;
 }
-- 
2.43.0


From 4bac4e337275b0f9352e8723f10136ab09ab3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 46/65] fix: STRN V reads numbers of the whole range of a cell

---
 src/fingerprint/FingerprintSTRN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index a16cf87..93214b6 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -110,7 +110,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			stack.top().push(std::stoll(str));
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 182e5c4d3901b5c41e2448580c500265a86330bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 47/65] fix: TOYS J and O move the line the pointer is on in
 Trefunge

They always moved the line in the plane 0 and blanked it there.
---
 src/fingerprint/FingerprintTOYS.cpp       | 19 +++++++++++++++----
 src/fingerprint/include/FingerprintTOYS.h |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..89b19b2 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -92,8 +92,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(n != 0){
 				dim_t ymin = field.min(1);
 				dim_t ymax = field.max(1);
-				dim_t x = ip.getPos().get(0);
-				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
+				translateLine(1, ymin, ymax, n);
 			}
 		} break;
 		case 'K':{
@@ -123,8 +122,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(n != 0){
 				dim_t xmin = field.min(0);
 				dim_t xmax = field.max(0);
-				dim_t y = ip.getPos().get(1);
-				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
+				translateLine(0, xmin, xmax, n);
 			}
 		} break;
 		case 'P':{
@@ -276,6 +274,19 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 	}
 }
 
+void FingerprintTOYS::translateLine(size_t axis, dim_t min, dim_t max, dim_t n){
+	Vector src(ip.getPos());
+	src.set(axis, min);
+	Vector dest(src);
+	dest.set(axis, min+n);
+	Vector size;
+	for(size_t d = 0; d < runner.getUniverse().dimensions(); ++d){
+		size.set(d, 1);
+	}
+	size.set(axis, max-min+1);
+	copySpace(src, size, dest, (n < 0), true);
+}
+
 bool FingerprintTOYS::sizeToRange(Vector& size){
 	for(size_t d = 0; d < size.size(); ++d){
 		dim_t s = size.get(d);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..5cbecf4 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -24,6 +24,7 @@ class FingerprintTOYS : public Fingerprint {
 		std::uniform_int_distribution<stack_t> dis;
 		
 		void copySpace(const Vector& src, const Vector& sz, const Vector& dest, bool low, bool move);
+		void translateLine(size_t axis, dim_t min, dim_t max, dim_t n);
 		bool sizeToRange(Vector& size);
 };
 
-- 
2.43.0


From f3fa668e4cbbebf652541cfa3a4e92f1c50dc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 48/65] fix: TOYS regions without extent in the last dimension
 are empty

A size is stored without its trailing zeros, so the region 2 by 0 was copied as one of 2 by 1.
---
 src/fingerprint/FingerprintTOYS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 89b19b2..a25954e 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -288,7 +288,7 @@ void FingerprintTOYS::translateLine(size_t axis, dim_t min, dim_t max, dim_t n){
 }
 
 bool FingerprintTOYS::sizeToRange(Vector& size){
-	for(size_t d = 0; d < size.size(); ++d){
+	for(size_t d = 0; d < runner.getUniverse().dimensions(); ++d){
 		dim_t s = size.get(d);
 		if(s > 0){
 			size.set(d, s-1);
-- 
2.43.0


From 8e9302899b7dd651ed6a4b41b4c409ee0159f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 49/65] fix: instructions act on the universe the pointer is
 in, also after MVRS J and G

---
 src/Fingerprint.cpp                       |  1 -
 src/FishStrategy.cpp                      |  4 ++--
 src/FungeStrategy.cpp                     |  1 -
 src/Unefunge93Strategy.cpp                |  4 ++--
 src/Unefunge98Strategy.cpp                | 10 ++++----
 src/fingerprint/FingerprintDBUG.cpp       | 14 ++++--------
 src/fingerprint/FingerprintJSTR.cpp       |  4 ++--
 src/fingerprint/FingerprintORTH.cpp       |  4 ++--
 src/fingerprint/FingerprintSTRN.cpp       |  8 +++----
 src/fingerprint/FingerprintTOYS.cpp       | 28 +++++++++++------------
 src/fingerprint/include/FingerprintDBUG.h |  5 ----
 src/include/Fingerprint.h                 |  1 -
 src/include/FungeStrategy.h               |  1 -
 13 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 3c123e4..4f636ce 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -421,7 +421,7 @@ FungeError FishStrategy::instructionGet(){
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	push(TOP, static_cast<stack_t>(field.get(v+storage)));
+	push(TOP, static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
@@ -429,7 +429,7 @@ FungeError FishStrategy::instructionPut(){
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	field.put(v+storage, pop(TOP));
+	runner.getField().put(v+storage, pop(TOP));
 	return ERROR_NONE;
 }
 
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index ed1e2b5..bb3c75d 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 5b8a105..b9f9acc 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -261,14 +261,14 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 FungeError Unefunge93Strategy::instructionGet(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
+	stack.top().push(static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	field.put(v+storage, stack.top().pop());
+	runner.getField().put(v+storage, stack.top().pop());
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 9ff5f87..92f4a15 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	inst_t c = field.get(ip.getPos());
+	inst_t c = runner.getField().get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -255,7 +255,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::ifstream file(filepath);
 		file.peek(); // A directory can be opened but not read
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
@@ -279,7 +279,7 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		Vector vb = popVector(runner);
 		std::ofstream file(filepath);
 		if(!file.fail()){
-			field.dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
 		}else{
 			ret = ERROR_UNSPEC;
 		}
@@ -400,11 +400,11 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.max(i)-field.min(i));
+		pushes += stack.top().push(runner.getField().max(i)-runner.getField().min(i));
 	}
 	// Least non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.min(i));
+		pushes += stack.top().push(runner.getField().min(i));
 	}
 	// Storage Offset
 	pushes += pushVector(runner, ip.getStorage());
diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index a3ef965..31a7b3f 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -11,23 +11,17 @@
 namespace Funge {
 
 FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
-	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'}),
-	dbg(nullptr)
+	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'})
 {}
 
-void FingerprintDBUG::activate(){
-	dbg = &runner.getUniverse().getDebugger();
-	Fingerprint::activate();
-}
-
 FungeError FingerprintDBUG::execute(inst_t cmd){
 	switch(cmd){
 		case 'A':{
 			Vector v = popVector(runner);
-			dbg->addBreakpoint(v);
+			runner.getUniverse().getDebugger().addBreakpoint(v);
 		} break;
 		case 'B':{
-			dbg->swbreak(runner);
+			runner.getUniverse().getDebugger().swbreak(runner);
 		} break;
 		case 'D':{
 			runner.getUniverse().clearMode(FUNGE_MODE_DEBUG);
@@ -37,7 +31,7 @@ FungeError FingerprintDBUG::execute(inst_t cmd){
 		} break;
 		case 'W':{
 			Vector v = popVector(runner);
-			dbg->addWatchpoint(v);
+			runner.getUniverse().getDebugger().addWatchpoint(v);
 		} break;
 		default:
 			return ERROR_UNIMP;
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..e7d0e95 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector pos = va + ip.getStorage();
 			stack.top().push(0);
 			for( ; n > 0; --n){
-				stack.top().push(field.get(pos));
+				stack.top().push(runner.getField().get(pos));
 				pos += vd;
 			}
 		} break;
@@ -32,7 +32,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector vd = popVector(runner);
 			Vector pos = va + ip.getStorage();
 			for( ; n > 0; --n){
-				field.put(pos, stack.top().pop());
+				runner.getField().put(pos, stack.top().pop());
 				pos += vd;
 			}
 		} break;
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..acddaf8 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -29,7 +29,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t x = stack.top().pop();
 			stack_t y = stack.top().pop();
 			Vector v({x, y});
-			stack.top().push(field.get(v));
+			stack.top().push(runner.getField().get(v));
 		} break;
 		case 'O':{
 			stack_t a = stack.top().pop();
@@ -41,7 +41,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t y = stack.top().pop();
 			stack_t i = stack.top().pop();
 			Vector v({x, y});
-			field.put(v, static_cast<inst_t>(i));
+			runner.getField().put(v, static_cast<inst_t>(i));
 		} break;
 		case 'S':{
 			std::string str = popString(stack.top());
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 93214b6..5026417 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -44,8 +44,8 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va); va += Vector{1}){
-				str += field.get(va);
+			for( ; runner.getField().get(va); va += Vector{1}){
+				str += runner.getField().get(va);
 			}
 			pushString(stack.top(), str);
 		} break;
@@ -87,10 +87,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, static_cast<unsigned char>(c));
+				runner.getField().put(va, static_cast<unsigned char>(c));
 				va += Vector{1};
 			}
-			field.put(va, 0);
+			runner.getField().put(va, 0);
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index a25954e..6102ebf 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -60,7 +60,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, stack.top().pop());
+					runner.getField().put(dest + *range, stack.top().pop());
 				}
 			}
 		} break;
@@ -70,7 +70,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(size, Vector({0}));
 				for(range.begin(); *range != range.end(); ++range){
-					stack.top().push(field.get(src + *range));
+					stack.top().push(runner.getField().get(src + *range));
 				}
 			}
 		} break;
@@ -90,8 +90,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'J':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t ymin = field.min(1);
-				dim_t ymax = field.max(1);
+				dim_t ymin = runner.getField().min(1);
+				dim_t ymax = runner.getField().max(1);
 				translateLine(1, ymin, ymax, n);
 			}
 		} break;
@@ -105,7 +105,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			Vector delta = ip.getDelta();
 			delta.left();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'M':{
@@ -120,8 +120,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'O':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t xmin = field.min(0);
-				dim_t xmax = field.max(0);
+				dim_t xmin = runner.getField().min(0);
+				dim_t xmax = runner.getField().max(0);
 				translateLine(0, xmin, xmax, n);
 			}
 		} break;
@@ -137,13 +137,13 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			delta.reverse();
 			Vector v = ip.getPos() + delta;
 			stack_t a = stack.top().pop();
-			field.put(v, a);
+			runner.getField().put(v, a);
 		} break;
 		case 'R':{
 			Vector delta = ip.getDelta();
 			delta.right();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'S':{
@@ -153,7 +153,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, i);
+					runner.getField().put(dest + *range, i);
 				}
 			}
 		} break;
@@ -213,7 +213,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'W':{
 			Vector v = popVector(runner);
 			stack_t value = stack.top().pop();
-			stack_t cell = field.get(v);
+			stack_t cell = runner.getField().get(v);
 			if(cell < value){
 				stack.top().push(value);
 				pushVector(runner, v);
@@ -265,10 +265,10 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 		}
 		VectorRange range(start, end);
 		for(range.begin(); *range != range.end(); ++range){
-			inst_t i = field.get(src + *range);
-			field.put(dest + *range, i);
+			inst_t i = runner.getField().get(src + *range);
+			runner.getField().put(dest + *range, i);
 			if(move){
-				field.put(src + *range, ' ');
+				runner.getField().put(src + *range, ' ');
 			}
 		}
 	}
diff --git a/src/fingerprint/include/FingerprintDBUG.h b/src/fingerprint/include/FingerprintDBUG.h
index fcbb714..7a92810 100644
--- a/src/fingerprint/include/FingerprintDBUG.h
+++ b/src/fingerprint/include/FingerprintDBUG.h
@@ -19,11 +19,6 @@ class FingerprintDBUG : public Fingerprint {
 		virtual ~FingerprintDBUG() = default;
 		
 		virtual FungeError execute(inst_t cmd) override;
-
-		virtual void activate() override;
-	
-	private:
-		FungeDebugger* dbg;
 };
 
 }
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From e4a32829b48031dcb25dbbaa0ea0bd4c8ba5b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 50/65] fix: MVRS B refuses a negative number of dimensions

---
 src/fingerprint/FingerprintMVRS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index e4c5b4f..b24b43d 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -27,6 +27,9 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 			std::string name = popString(stack.top());
 			if(dim == 0){
 				dim = runner.getUniverse().dimensions();
+			}else if(dim < 0){
+				ret = ERROR_UNSPEC;
+				break;
 			}
 			if(flgs == 0){
 				flgs = runner.getMode();
-- 
2.43.0


From 0c704cd479e5bd3c90db74e81296da832d9251cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 51/65] fix: reading an unfinished vector ends with the line

---
 src/Vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..f1d533a 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -171,14 +171,14 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
-	char c;
+	char c = 0;
 	is >> c;
 	if(c == '('){
 		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
-- 
2.43.0


From 2ba8bdb9c67036d8b8b637f3169eed41da38b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 52/65] fix: the debugger reports a stack that does not exist

---
 src/Defunge.cpp       | 3 +++
 src/include/Defunge.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 14e6fcd..0d72248 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -223,6 +223,9 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
+		if(s >= stack->size()){
+			return DEFUNGE_ERROR;
+		}
 		std::cout << stack->at(s).get(c) << std::endl;
 	}
 	return DEFUNGE_OK;
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ac12c48..e2a5d4a 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -25,6 +25,7 @@ class Defunge {
 			DEFUNGE_OK,
 			DEFUNGE_BREAK,
 			DEFUNGE_NO_THREAD,
+			DEFUNGE_ERROR,
 		};
 
 		typedef Error (Defunge::*debugger_command_t)(std::istringstream&);
-- 
2.43.0


From 6a31901399976fe5f7d222a746ea93ed1fb99832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 53/65] fix: the debugger lists any plane of fungespace and
 refuses dimensions that do not exist

---
 src/Defunge.cpp       | 17 +++++++++++++++--
 src/include/Defunge.h |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 0d72248..961b9ed 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -131,11 +131,18 @@ void Defunge::printIP(const FungeRunner& r){
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
+bool Defunge::validDimensions(const Field& field, const Vector& dim){
+	const dim_t count = std::max<dim_t>(field.size(), 2);
+	return dim[0] >= 0 && dim[0] < count && dim[1] >= 0 && dim[1] < count && dim[0] != dim[1];
+}
+
 void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
 	const Vector start = center-size;
 	const Vector end = center+size;
-	Vector pos = start;
-	while(pos <= end){
+	Vector pos = center;
+	pos.set(dim[0], start[dim[0]]);
+	pos.set(dim[1], start[dim[1]]);
+	while(pos[dim[1]] <= end[dim[1]]){
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
@@ -359,6 +366,9 @@ Defunge::Error Defunge::getCommand(std::istringstream& iss){
 	}
 	
 	const Field& field = debugger->universe.getField();
+	if(!validDimensions(field, d)){
+		return DEFUNGE_ERROR;
+	}
 	printField(debugger, field, v, s, d, ip);
 	return DEFUNGE_OK;
 }
@@ -381,6 +391,9 @@ Defunge::Error Defunge::listCommand(std::istringstream& iss){
 	if(d.size() == 0){
 		d = {0,1};
 	}
+	if(!validDimensions(field, d)){
+		return DEFUNGE_ERROR;
+	}
 	printField(debugger, field, ip.getPos(), s, d, &ip);
 	return DEFUNGE_OK;
 }
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index e2a5d4a..25417f0 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -39,6 +39,7 @@ class Defunge {
 
 		void debugWrite(const Field& field, const Vector& pos, inst_t inst);
 		void printIP(const FungeRunner& ip);
+		bool validDimensions(const Field& field, const Vector& dim);
 		void printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip);
 
 		Error runCommand(std::istringstream& iss);
-- 
2.43.0


From 837d34e0e4d71d56751b211cf96b28600378faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 54/65] fix: PERL passes the code to perl as it is, not
 expanded by the shell

---
 src/fingerprint/FingerprintPERL.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..8a859fd 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,7 +7,6 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
-#include <iomanip>
 
 namespace Funge {
 
@@ -45,9 +44,15 @@ FungeError FingerprintPERL::execute(inst_t cmd){
 
 int FingerprintPERL::perl(const std::string& code){
 	std::string cmd = std::string("exit(eval{") + code + std::string("})");
-	std::stringstream sq;
-	sq << std::quoted(cmd);
-	cmd = std::string("perl -e ") + sq.str();
+	std::string sq;
+	for(char c : cmd){
+		if(c == '\''){
+			sq += "'\\''";
+		}else{
+			sq += c;
+		}
+	}
+	cmd = std::string("perl -e '") + sq + std::string("'");
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From 2781869ee006423d328c4a33161df03222790aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 55/65] fix: the debugger's state is only accessed under a lock

---
 src/FungeDebugger.cpp       | 10 ++++++++--
 src/FungeUniverse.cpp       |  2 ++
 src/include/FungeDebugger.h |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index fb9ab95..22768b4 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -14,18 +14,20 @@
 
 namespace Funge {
 
+std::recursive_mutex FungeDebugger::mutex;
+
 FungeDebugger::FungeDebugger(FungeUniverse& uni) :
 	universe(uni),
 	breakpoints(),
 	watchpoints(),
 	threads(),
-	mutex(),
 	lastThread(0)
 {
 }
 
 void FungeDebugger::tick(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		intro(runner);
 		size_t id = runner.getID();
 		auto found = threads.find(id);
@@ -54,6 +56,7 @@ void FungeDebugger::tick(FungeRunner& runner){
 }
 void FungeDebugger::swbreak(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		intro(runner);
 		std::cout << "Software Breakpoint " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
@@ -63,6 +66,7 @@ void FungeDebugger::swbreak(FungeRunner& runner){
 
 void FungeDebugger::trap(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		intro(runner);
 		std::cout << "Exception Trapped " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
@@ -72,6 +76,7 @@ void FungeDebugger::trap(FungeRunner& runner){
 
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		auto found = threads.find(lastThread);
 		if(watchpoints.contains(pos) && found != threads.end() && found->second.runner != nullptr){
 			threads[lastThread].state = STATE_BREAK;
@@ -94,15 +99,16 @@ void FungeDebugger::addBreakpoint(const Vector& vec){
 
 void FungeDebugger::addWatchpoint(const Vector& vec){
 	if(vec.size() > 0){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		if(watchpoints.empty()){
 			universe.getField().addObserver(std::bind(&FungeDebugger::debugWrite, this, std::placeholders::_1, std::placeholders::_2));
 		}
-		std::lock_guard<std::recursive_mutex> guard(mutex);
 		watchpoints.insert(vec);
 	}
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
+	std::lock_guard<std::recursive_mutex> guard(mutex);
 	auto found = threads.find(runner.getID());
 	if(found != threads.end()){
 		found->second.state = STATE_END;
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 6f02050..c04de8a 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -160,8 +160,10 @@ void FungeUniverse::operator()(){
 				if(thread->isRunning()){
 					runners.push_back(thread);
 				}else{
+					mutex.unlock();
 					debug.endThread(*thread);
 					delete thread;
+					mutex.lock();
 					cv.notify_all();
 				}
 			}
diff --git a/src/include/FungeDebugger.h b/src/include/FungeDebugger.h
index 44812df..d43abcf 100644
--- a/src/include/FungeDebugger.h
+++ b/src/include/FungeDebugger.h
@@ -53,7 +53,7 @@ class FungeDebugger {
 		std::set<Vector> breakpoints;
 		std::set<Vector> watchpoints;
 		std::map<size_t, Thread> threads;
-		std::recursive_mutex mutex;
+		static std::recursive_mutex mutex; ///< Held while any debugger is used.
 		size_t lastThread;
 
 		friend class Defunge;
-- 
2.43.0


From 3931903b367d1ee3f423d929086d7b15bb480f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 56/65] fix: the debugger forgets a pointer that leaves its
 universe

---
 src/FungeDebugger.cpp | 6 +++---
 src/FungeUniverse.cpp | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index 22768b4..6034d39 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -31,12 +31,12 @@ void FungeDebugger::tick(FungeRunner& runner){
 		intro(runner);
 		size_t id = runner.getID();
 		auto found = threads.find(id);
-		if(found == threads.end()){
-			threads.insert({id, Thread{
+		if(found == threads.end() || found->second.runner == nullptr){
+			threads.insert_or_assign(id, Thread{
 				.runner = &runner,
 				.backtrace = {},
 				.state = FungeDebugger::STATE_START,
-			}});
+			});
 			std::cout << "New IP " << id << std::endl;
 		}
 		lastThread = id;
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index c04de8a..bee5128 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -97,6 +97,7 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 
 void FungeUniverse::handOver(FungeRunner* runner){
 	FungeUniverse& other = runner->getUniverse();
+	debug.endThread(*runner);
 	std::lock_guard<std::mutex> transit(transferring);
 	std::scoped_lock guard(mutex, other.mutex);
 	runners.remove(runner);
-- 
2.43.0


From 75327c0ae421320055795a80367620500758ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 57/65] fix: a stack of stacks is only accessed under its lock

---
 src/StackStack.cpp       | 34 +++++++++++++++++++++++++---------
 src/include/StackStack.h |  2 ++
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index f77a554..a8f144a 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -11,7 +11,8 @@ namespace Funge {
 StackStack::StackStack() :
 	select(0),
 	mode(),
-	stack()
+	stack(),
+	mutex()
 {
 	stack.push_back(new Stack());
 }
@@ -24,36 +25,45 @@ StackStack::~StackStack()
 }
 
 StackStack::StackStack(const StackStack& orig) :
-	select(orig.select),
+	select(0),
 	mode(),
-	stack()
+	stack(),
+	mutex()
 {
-	for(size_t i = orig.size(); i > 0; --i){
-		stack.push_back(new Stack(orig.at(i-1)));
+	std::lock_guard<std::mutex> guard(orig.mutex);
+	select = orig.select;
+	for(auto s : orig.stack){
+		stack.push_back(new Stack(*s));
 	}
 }
 
 Stack& StackStack::top(){
-	return at(select);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *stack.at(stack.size()-select-1);
 }
 
 Stack& StackStack::second(){
-	return at(select+1);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *stack.at(stack.size()-select-2);
 }
 
 Stack& StackStack::at(size_t x){
+	std::lock_guard<std::mutex> guard(mutex);
 	return *stack.at(stack.size()-x-1);
 }
 
 const Stack& StackStack::top() const{
-	return at(select);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *stack.at(stack.size()-select-1);
 }
 
 const Stack& StackStack::second() const{
-	return at(select+1);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *stack.at(stack.size()-select-2);
 }
 
 const Stack& StackStack::at(size_t x) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return *stack.at(stack.size()-x-1);
 }
 
@@ -66,6 +76,7 @@ void StackStack::push(){
 }
 
 void StackStack::insert(size_t pos){
+	std::lock_guard<std::mutex> guard(mutex);
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
 	Stack* fresh = new Stack();
@@ -74,6 +85,7 @@ void StackStack::insert(size_t pos){
 }
 
 void StackStack::remove(size_t pos){
+	std::lock_guard<std::mutex> guard(mutex);
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select-1;
 	Stack* old = *iter;
@@ -85,10 +97,12 @@ void StackStack::remove(size_t pos){
 }
 
 size_t StackStack::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return stack.size();
 }
 
 void StackStack::setMode(FungeMode m){
+	std::lock_guard<std::mutex> guard(mutex);
 	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
@@ -96,6 +110,7 @@ void StackStack::setMode(FungeMode m){
 }
 
 FungeError StackStack::increment(){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(select > 0){
 		--select;
 		return ERROR_NONE;
@@ -105,6 +120,7 @@ FungeError StackStack::increment(){
 }
 
 FungeError StackStack::decrement(){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(select < stack.size()-1){
 		++select;
 		return ERROR_NONE;
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..04db3f8 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -8,6 +8,7 @@
 
 #include "Stack.h"
 #include "funge_types.h"
+#include <mutex>
 #include <vector>
 
 namespace Funge {
@@ -141,6 +142,7 @@ class StackStack {
 		size_t select;
 		FungeMode mode;
 		std::vector<Stack*> stack;
+		mutable std::mutex mutex;
 };
 
 }
-- 
2.43.0


From 824b34fe7703dc5edb0b100444f80674326c57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:26 +0000
Subject: [PATCH 58/65] fix: y ends the environment with a single null

---
 src/Unefunge98Strategy.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 92f4a15..a270cf9 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -368,7 +368,6 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	int pushes = 0;
 	// ENV variables
 	pushes += stack.top().push(0);
-	pushes += stack.top().push(0);
 	auto environment = runner.getUniverse().environment();
 	if(environment.size() > 0){
 		for(auto arg = environment.crbegin(); arg != environment.crend(); ++arg){
-- 
2.43.0


From 6072b50a00c46d228284beda58860ee3cba97246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 59/65] fix: a trap or software breakpoint stops the pointer
 that met it

---
 src/FungeDebugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index 6034d39..a653070 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -59,6 +59,7 @@ void FungeDebugger::swbreak(FungeRunner& runner){
 		std::lock_guard<std::recursive_mutex> guard(mutex);
 		intro(runner);
 		std::cout << "Software Breakpoint " << runner.getIP().getPos() << std::endl;
+		lastThread = runner.getID();
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
 	}
@@ -69,6 +70,7 @@ void FungeDebugger::trap(FungeRunner& runner){
 		std::lock_guard<std::recursive_mutex> guard(mutex);
 		intro(runner);
 		std::cout << "Exception Trapped " << runner.getIP().getPos() << std::endl;
+		lastThread = runner.getID();
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
 	}
-- 
2.43.0


From 85095c1a7bf6231ca7c58b06820572182cadc4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 60/65] fix: o writes exactly the block it is told, in every
 dimension

---
 src/Field.cpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 960b227..e7fd825 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -194,29 +194,27 @@ void Field::parseFungeLib(std::istream& file){
 }
 
 void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, bool binary) const {
-	Vector v(start);
-	Vector end(start+delta);
+	// A dimension the field does not have is one cell wide.
+	const dim_t height = (dimensions == 1) ? 1 : delta[1];
+	const dim_t depth = (dimensions < 3) ? 1 : std::max<dim_t>(delta[2], 1);
 	std::vector<char> buffer;
-	while(v < end){
-		inst_t i = get(v);
-		buffer.push_back(static_cast<char>(i));
-		if(i != ' ' || binary){
-			for(char c : buffer){
-				file << c;
-			}
-			buffer.clear();
+	for(dim_t z = 0; z < depth; ++z){
+		if(z > 0){
+			file << '\f';
 		}
-		v.set(0, v[0]+1); // ++x
-		if(v[0] >= end[0]){
-			file << '\n';
-			if(!binary){
-				buffer.clear();
+		for(dim_t y = 0; y < height; ++y){
+			for(dim_t x = 0; x < delta[0]; ++x){
+				inst_t i = get(start + Vector{x, y, z});
+				buffer.push_back(static_cast<char>(i));
+				if(i != ' ' || binary){
+					for(char c : buffer){
+						file << c;
+					}
+					buffer.clear();
+				}
 			}
-			v.set(1, v[1]+1);   // ++y
-			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			buffer.clear(); // Text has no spaces at the end of a line
+			file << '\n';
 		}
 	}
 }
-- 
2.43.0


From 4c2458c0ccaed40c74a61f7aca445d6ff5f20977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 61/65] fix: i reports how many planes it read

---
 src/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index e7fd825..a9fc856 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -91,8 +91,10 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 			last = i;
 		}
 	}
-	if(v[0] > start[0]){
-		increment(1, v, max); // The last line did not end in a newline
+	for(size_t d = 1; d < std::max<size_t>(dimensions, 2); ++d){
+		if(v[d-1] > start[d-1]){
+			increment(d, v, max); // The last line did not end in a newline, or the last plane in a form feed
+		}
 	}
 	std::lock_guard<std::mutex> guard(mutex);
 	if(dimensions == 0){
-- 
2.43.0


From 78b8b158ce6e518cbfd8e8206484118852daf22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 62/65] fix: the vector i leaves is one that o takes

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index a270cf9..b87db96 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -257,7 +257,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		if(!file.fail()){
 			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
-			pushVector(runner, va);
+			pushVector(runner, va - ip.getStorage()); // o adds the storage offset
 		}else{
 			ret = ERROR_UNSPEC;
 		}
-- 
2.43.0


From 97149b793e609d33aff4c506fc83318e6f37d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 63/65] fix: a BeQunge file has the number of dimensions it
 declares

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index a9fc856..be8afc2 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -33,7 +33,7 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
+	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
 }
-- 
2.43.0


From 1536e291be3e441e1819d44f2ecb55e9e072736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 64/65] fix: characters above 127 in BeQunge and library files
 have the values they have in other sources

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index be8afc2..2cdbb61 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -154,7 +154,7 @@ void Field::parseBeq(std::istream& file){
 			Vector pos(origin);
 			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
-				for(auto c : line){
+				for(unsigned char c : line){
 					put(pos, c);
 					pos.set(0, pos.get(0)+1); // ++x
 				}
@@ -186,7 +186,7 @@ void Field::parseFungeLib(std::istream& file){
 			}
 		}
 
-		for(char i : line){
+		for(unsigned char i : line){
 			put(pos, i);
 			pos += Vector{1};
 		}
-- 
2.43.0


From 2cb11b20fa665a44e64d8dedf49446aa00405282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 65/65] fix: a pointer that was stopped leaves the blanks,
 comments, jumps and iterations it is in

---
 src/FungeRunner.cpp        |  2 +-
 src/Unefunge98Strategy.cpp | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 0cad94f..65d998a 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -165,7 +165,7 @@ void FungeRunner::tick(){
 		if(err == ERROR_NONE || err == ERROR_SKIP){
 			ip.next();
 		}
-	} while(err == ERROR_SKIP);
+	} while(err == ERROR_SKIP && isRunning());
 }
 
 FungeError FungeRunner::execute(inst_t i){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index b87db96..1dccfc3 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -81,7 +81,7 @@ FungeError Unefunge98Strategy::instructionNoop(){
 FungeError Unefunge98Strategy::instructionJumpOver(){
 	do{
 		ip.next();
-	}while(ip.get() != ';');
+	}while(ip.get() != ';' && !ip.isStopped());
 	return ERROR_SKIP;
 }
 
@@ -90,7 +90,7 @@ FungeError Unefunge98Strategy::instructionJumpForward(){
 	if(j < 0){
 		ip.reflect();
 	}
-	for(stack_t i = 0; i < std::abs(j); i++){
+	for(stack_t i = 0; i < std::abs(j) && !ip.isStopped(); i++){
 		ip.next();
 	}
 	if(j < 0){
@@ -114,12 +114,12 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
 	inst_t c = runner.getField().get(ip.getPos());
-	while(c == ' ' || c == ';'){
+	while((c == ' ' || c == ';') && !ip.isStopped()){
 		if(c == ';'){
 			do{
 				ip.next();
 				c = ip.get();
-			}while(c != ';');
+			}while(c != ';' && !ip.isStopped());
 			ip.next();
 			c = ip.get();
 		}else{
@@ -129,7 +129,7 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	}
 	ip.setPos(v);
 	stack_t k = stack.top().pop();
-	for(stack_t i = 0; i < k; i++){
+	for(stack_t i = 0; i < k && !ip.isStopped(); i++){
 		switch(runner.execute(c)){
 			case ERROR_NONE:
 			case ERROR_SKIP:
-- 
2.43.0

