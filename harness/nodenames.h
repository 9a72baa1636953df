// names of the boundary selections of the 2-d and 3-d meshes
#define NODES2D(X) X(BottomEdge) X(TopEdge) X(LeftEdge) X(RightEdge) X(BottomOpenEdge) X(TopOpenEdge) X(LeftOpenEdge) X(RightOpenEdge) X(BottomLeftCorner) X(BottomRightCorner) X(TopLeftCorner) X(TopRightCorner) X(LeftBottomCorner) X(LeftTopCorner) X(RightBottomCorner) X(RightTopCorner)
#define NODES3D(X) X(Bottom) X(Top) X(Left) X(Right) X(Front) X(Back) X(FrontBottomEdge) X(FrontTopEdge) X(FrontLeftEdge) X(FrontRightEdge) X(BackBottomEdge) X(BackTopEdge) X(BackLeftEdge) X(BackRightEdge) X(BottomLeftEdge) X(BottomRightEdge) X(TopLeftEdge) X(TopRightEdge) X(BottomFrontEdge) X(BottomBackEdge) X(TopFrontEdge) X(TopBackEdge) X(LeftBottomEdge) X(LeftFrontEdge) X(LeftBackEdge) X(LeftTopEdge) X(RightBottomEdge) X(RightTopEdge) X(RightFrontEdge) X(RightBackEdge) X(FrontFace) X(BackFace) X(LeftFace) X(RightFace) X(BottomFace) X(TopFace) X(FrontBottomOpenEdge) X(FrontTopOpenEdge) X(FrontLeftOpenEdge) X(FrontRightOpenEdge) X(BackBottomOpenEdge) X(BackTopOpenEdge) X(BackLeftOpenEdge) X(BackRightOpenEdge) X(BottomLeftOpenEdge) X(BottomRightOpenEdge) X(TopLeftOpenEdge) X(TopRightOpenEdge) X(BottomFrontOpenEdge) X(BottomBackOpenEdge) X(TopFrontOpenEdge) X(TopBackOpenEdge) X(LeftBottomOpenEdge) X(LeftFrontOpenEdge) X(LeftBackOpenEdge) X(LeftTopOpenEdge) X(RightBottomOpenEdge) X(RightTopOpenEdge) X(RightFrontOpenEdge) X(RightBackOpenEdge) X(FrontBottomLeftCorner) X(FrontBottomRightCorner) X(FrontTopLeftCorner) X(FrontTopRightCorner) X(BackBottomLeftCorner) X(BackBottomRightCorner) X(BackTopLeftCorner) X(BackTopRightCorner) X(FrontLeftBottomCorner) X(BottomFrontLeftCorner) X(BottomLeftFrontCorner) X(LeftFrontBottomCorner) X(LeftBottomFrontCorner) X(FrontRightBottomCorner) X(BottomFrontRightCorner) X(BottomRightFrontCorner) X(RightFrontBottomCorner) X(RightBottomFrontCorner) X(FrontLeftTopCorner) X(TopFrontLeftCorner) X(TopLeftFrontCorner) X(LeftFrontTopCorner) X(LeftTopFrontCorner) X(FrontRightTopCorner) X(TopFrontRightCorner) X(TopRightFrontCorner) X(RightFrontTopCorner) X(RightTopFrontCorner) X(BackLeftBottomCorner) X(BottomBackLeftCorner) X(BottomLeftBackCorner) X(LeftBackBottomCorner) X(LeftBottomBackCorner) X(BackRightBottomCorner) X(BottomBackRightCorner) X(BottomRightBackCorner) X(RightBackBottomCorner) X(RightBottomBackCorner) X(BackLeftTopCorner) X(TopBackLeftCorner) X(TopLeftBackCorner) X(LeftBackTopCorner) X(LeftTopBackCorner) X(BackRightTopCorner) X(TopBackRightCorner) X(TopRightBackCorner) X(RightBackTopCorner) X(RightTopBackCorner)
